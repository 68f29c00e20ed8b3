#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API results of the dockerfile_parser crate"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G="src/dockerfile_parser.pest"; D="src/dockerfile_parser.rs"; U="src/util.rs"; S="src/splicer.rs"; I="src/image.rs"; ST="src/stage.rs"
INS="src/instructions/"

p("C01","Any input is handled or rejected: no panic, abort or endless loop",
 "Parsing any text (or reading any bytes) terminates and yields either a Dockerfile or an error value; it never panics, aborts the process or overflows the stack, whatever the size, nesting depth or character content of the input. The same holds for every read-only operation on a parsed Dockerfile (stages, stage lookup, spans, relative positions, image resolution, display and debug formatting, splicing any of its spans) and for rendering the error.",
 ["inputs"],"all byte strings and unicode texts, including control characters, unbalanced quotes, dangling backslashes, very long lines and tens of thousands of continuation lines or escapes",
 "Tests parse about sixty small, well-formed snippets; none is arbitrary, deep or large, so unwraps, index arithmetic, slicing at non-character boundaries and recursion depth are never stressed.",
 [D,U,G,S,I,ST],[("parse_dockerfile",D),("breakable string assembly",U),("grammar recursion",G),("unwrap() on first inner token",INS+"run.rs")])
p("C02","Parsing cost grows at most linearly with the input",
 "The number of grammar steps, the memory allocated and the processor time taken to parse or reject an input of n characters are bounded by a constant times n; no input (repeated quotes, backslashes, comments, flags, continuation lines, almost-valid instructions, many instructions) makes the parser backtrack, copy or rescan super-linearly.",
 ["inputs"],"all texts, in particular long repetitive almost-valid ones",
 "Tests only see inputs of a few hundred bytes on which exponential or quadratic backtracking is invisible, and they measure no cost.",
 [G,D,U],[("PEG ordered choices and repetitions",G),("one pass over the parsed pairs",D)],None,["pest's counted parser-state calls (pest::set_call_limit)","bytes requested from the allocator and thread CPU time during Dockerfile::parse"])
p("C03","Source text is kept exactly and all entry points agree",
 "A parsed Dockerfile keeps the input text byte for byte (line endings, whitespace, unicode included), and parsing the same text via the string parser, FromStr or a reader that delivers it in arbitrary chunks gives equal results, every time and on every thread. A reader that fails or delivers invalid UTF-8 yields a read error rather than a partial Dockerfile.",
 ["inputs","fault_sequences"],"all texts, all ways a reader can split them into reads (including splits inside a multi-byte character), interruptions and I/O errors at any read, and concurrent parses",
 "One doc-test compares the three entry points on one tiny ASCII string held in a single buffer; no failing, chunked or multi-buffer reader is ever used.",
 [D],[("Dockerfile::parse / from_reader / FromStr",D)])
p("C04","Spans are valid, nested, ordered, and leave only blanks and comments over",
 "Every span in a parsed Dockerfile lies inside the source on character boundaries; spans of an instruction's parts lie inside the instruction's span, in source order and without overlap, and instruction spans are ordered and disjoint. Each instruction span starts with its keyword, and all source text outside instruction spans is whitespace and comment lines only, while inside an instruction all text outside its reported parts is only the keyword, its punctuation, whitespace, line continuations and comments.",
 ["inputs"],"every accepted text, valid or exotic",
 "Tests assert hand-computed offsets for a few dozen ASCII snippets; they say nothing about other layouts, multi-byte text, CRLF or other instruction mixes.",
 [S,U,G]+[INS+x+".rs" for x in("from","arg","copy","label","env","run","cmd","entrypoint","misc")],
 [("Span::from_pair",S),("per-instruction from_record",INS)])
p("C05","The text under a span is what the element says",
 "For every reported element of every accepted Dockerfile, the source text under its span equals the element's content, or, if it starts with a quote, decodes to it by removing the quotes, (for labels) escaped line breaks, and backslash escapes. Comment components are the exact comment text, and a flag, pair or instruction span runs, blanks and continuations at its ends aside, exactly from its first to its last part.",
 ["inputs"],"every accepted text and every element in it",
 "Existing tests compare spans and contents independently against literals, for ASCII snippets only; a consistent shift or an unusual quoting is not observable there.",
 [U,S,INS+"label.rs",INS+"env.rs"],[("parse_string / parse_any_breakable",U),("Span::from_pair",S)])
p("C06","FROM is parsed to exactly its flags, image and alias",
 "For any FROM instruction with any number of --name=value flags, an image reference and an optional alias, in any keyword case and with any whitespace, continuations and comments between the parts, the parse result lists the flags in order with exact names and values, the exact image text and its decomposition, and the exact alias (case preserved), each with its exact source span. A line that is not of this form is never reported as a FROM.",
 ["inputs"],"all flag lists, image references, aliases and layouts",
 "Four FROM snippets exist, with at most one flag and one fixed layout.",
 [INS+"from.rs",G],[("FromInstruction::from_record",INS+"from.rs"),("rule from",G)])
p("C07","ARG is parsed to exactly its name and optional value",
 "For any ARG instruction, the result has the exact name and either no value (no equals sign) or exactly the written value, unquoted and unescaped if quoted, with exact spans; text after a quoted or unquoted value makes the parse fail instead of being dropped, and no line of another form is reported as an ARG.",
 ["inputs"],"all names, raw and quoted values, and layouts",
 "Three ARG snippets with the same name and value.",
 [INS+"arg.rs",G],[("ArgInstruction::from_record",INS+"arg.rs")])
p("C08","COPY is parsed to exactly its flags, sources and destination",
 "For any COPY instruction with any number of leading --name=value flags and at least two paths, the last path is the destination, all earlier paths are the sources in order, and the flags are listed in order with exact names and values and exact spans; flags, paths, continuations and comments never leak into one another. A line with fewer than two paths is never reported as a COPY.",
 ["inputs"],"all flag lists, path lists and layouts",
 "Six COPY snippets, at most one flag and three sources.",
 [INS+"copy.rs",G],[("CopyInstruction::from_record",INS+"copy.rs")])
p("C09","LABEL is parsed to exactly its ordered name/value pairs",
 "For any LABEL instruction, in name=value form with any number of pairs or in the single 'name value' form, with raw or quoted names and values in any mixture, the result lists every pair in order, duplicates included, with exact unescaped name and value and exact spans; quoted text may contain literal line breaks, and an escaped line break inside quotes is removed, for LF and CRLF files alike. A line of neither form is never reported as a LABEL.",
 ["inputs"],"all pair lists, quotings, line endings and layouts",
 "About a dozen LABEL snippets with at most three pairs; CRLF never occurs.",
 [INS+"label.rs",U,G],[("Label::from_record",INS+"label.rs"),("clean_escaped_breaks",U)])
p("C10","ENV is parsed to exactly its ordered variables, in both forms",
 "For any ENV instruction, in key=value form with any number of pairs or in the single 'key value' form whose value runs to the end of the (continued) line, the result lists every variable in order, duplicates included, with exact key, exact unescaped value and exact spans; equals signs, hash signs and spaces inside a single-form value belong to the value. A line of neither form is never reported as an ENV.",
 ["inputs"],"all keys, values, quotings, pair counts, multi-line values and layouts",
 "About a dozen ENV snippets, at most three pairs.",
 [INS+"env.rs",G],[("EnvInstruction::from_record",INS+"env.rs"),("parse_env_pair",INS+"env.rs")])
p("C11","Shell-form RUN, CMD and ENTRYPOINT keep every line and comment",
 "For any shell-form RUN, CMD or ENTRYPOINT, over any number of continuation lines with comment lines anywhere between them (also directly after the keyword's line continuation), the result is of shell form and lists every command line piece and every comment after the first piece, in order, with exact text and exact spans; indentation of continued lines is preserved and nothing is merged, dropped or duplicated.",
 ["inputs"],"all command texts, line counts, comment placements, trailing blanks after the backslash, and line endings",
 "Each of the three is tested on two fixed multi-line commands.",
 [INS+"run.rs",INS+"cmd.rs",INS+"entrypoint.rs",U,G],[("parse_any_breakable",U),("from_record",INS+"run.rs")])
p("C12","Exec-form RUN, CMD and ENTRYPOINT give exactly the listed strings",
 "For any exec-form RUN, CMD or ENTRYPOINT array of quoted strings, with arbitrary whitespace, line continuations and comment lines between the elements and before the array, the result is of exec form and holds exactly the decoded strings in order with exact spans; an array of any length, including empty, works, and an unquoted or unterminated list is never treated as exec form, and nothing but the end of the line may follow the array.",
 ["inputs"],"all string lists, quotings and layouts",
 "Two or three fixed arrays of at most four ASCII strings per instruction.",
 [U,INS+"run.rs",INS+"cmd.rs",INS+"entrypoint.rs",G],[("parse_string_array",U)])
p("C13","Unknown instructions are preserved verbatim, known keywords recognised",
 "An alphabetic instruction word that is not one of FROM, ARG, LABEL, RUN, ENTRYPOINT, CMD, COPY, ENV (in any case) yields a miscellaneous instruction with the word as written and its argument text, lines and comments verbatim; a word that merely begins with a known keyword is such an unknown word, and a well-formed known instruction in any letter case is always given its own kind.",
 ["inputs"],"all instruction words, arguments and layouts",
 "Tests use a handful of keywords in lower or upper case and never a word with a known keyword as prefix.",
 [INS+"misc.rs",D,G],[("MiscInstruction::from_record",INS+"misc.rs"),("rule step ordering",G)])
p("C14","Layout does not change meaning",
 "Two renderings of the same sequence of instructions that differ only in keyword letter case, amount and kind of inter-argument whitespace, indentation, blank lines, comment lines, line continuations between arguments, trailing whitespace, LF versus CRLF line ends, the presence of a final newline, or raw versus quoted spelling of the same value, parse to the same instructions with the same contents.",
 ["inputs"],"all instruction sequences and all pairs of layouts",
 "Each test fixes one layout per snippet, so no pair of layouts is compared.",
 [G,U]+[INS+x+".rs" for x in("from","arg","copy","label","env")],[("arg_ws / line_continuation / comment rules",G)])
p("C15","A file is the concatenation of its instructions",
 "If two texts parse and the first does not end inside an open line continuation or quotation, then joining them with a line break parses, and its instructions are the first text's followed by the second's, unchanged except that spans and FROM indexes of the second part are shifted by the length and FROM count of what precedes. In particular a comment, blank line or instruction never affects how other instructions are parsed.",
 ["inputs","histories"],"all pairs and longer chains of valid Dockerfile texts",
 "Tests parse whole fixed files; none relates the parse of a file to the parse of its parts.",
 [D,G],[("parse_dockerfile loop",D),("rule dockerfile",G)])
p("C16","Global ARGs and FROM numbering follow file order",
 "The global arguments of a parsed Dockerfile are exactly the ARG instructions before the first FROM, in order, and also appear in the instruction list; looking up a global argument by name returns the first of those with exactly that name and nothing otherwise. The FROM instructions are numbered 0, 1, 2, ... in file order.",
 ["inputs"],"all sequences of instructions, with ARGs before, between and after FROMs and duplicate names",
 "Only two or three files with a single global ARG exist; lookups by name are untested.",
 [D],[("global_args / from_index tracking",D),("Dockerfile::get_global_arg",D)],[("from_found","no FROM seen yet",D)])
p("C17","Stages partition the file at its FROM instructions",
 "The stages of a Dockerfile are, in order, one per FROM: stage i has index i, begins with the i-th FROM, and holds every instruction up to the next FROM in file order; instructions before the first FROM belong to no stage, and none is lost, duplicated or reordered. Iteration, indexing, and the position of an ARG within a stage (the first ARG of exactly that name, relative to the stage) agree with this, and stages order by index.",
 ["inputs"],"all instruction sequences, including no FROM at all and many stages",
 "Two four-stage files are checked, one of them compared only by stage index because stage equality ignores everything else.",
 [ST,D],[("Stages::new",ST),("Stage::arg_index",ST)])
p("C18","Stage names resolve case-insensitively to earlier stages",
 "A stage's name is its lower-cased alias; its parent is 'scratch' if its image is scratch, else the first earlier stage whose name equals its image ignoring ASCII case, else the external image; its root is the parent's root followed transitively down to an external image or scratch. A stage never refers to itself or a later stage, and lookup by text takes an integer as an index and anything else as a case-insensitive name, giving nothing if there is none.",
 ["inputs"],"all stage graphs expressible by aliases and images, including duplicate, numeric, mixed-case, forward and self references and long chains",
 "Tests cover one chain of depth two in lower case; stage equality in the assertions compares only the index, so parent and root are effectively untested.",
 [ST],[("Stages::new / get / get_by_name",ST)])
p("C19","Image references decompose by the registry rule and print back",
 "Decomposing any string as an image reference and printing it gives the same string back. The part before the first slash is a registry exactly if it is 'localhost' or contains a dot or colon; what follows the first '@' in the rest is the hash and then there is no tag, otherwise what follows the first ':' is the tag.",
 ["inputs"],"all strings, well-formed references or not",
 "About twenty-five fixed references; printing is checked once, in a doc-test.",
 [I],[("ImageRef::parse / Display",I),("is_registry",I)])
p("C20","Variable substitution is complete, bounded and reported exactly",
 "Resolving an image reference replaces every $name and ${name} by the value of the global ARG of that name (the last one given a value), recursively, and gives the decomposed result together with exactly the set of names used; all other text is unchanged. It gives nothing if any needed name has no value or the nesting exceeds the allowed depth (16 for image references, cyclic definitions included), and always terminates.",
 ["inputs","configurations"],"all image texts, variable maps (chains, diamonds, cycles, missing and empty values) and depth limits",
 "One fixed variable map with chains of length two and a two-cycle is tested; the depth limit only at 0, 1, 2 and 16.",
 [I,S],[("substitute / resolve_vars_with_context",I)])
p("C21","Image digests in FROM are accepted exactly if they are SHA-256",
 "A FROM instruction whose image carries a digest is accepted if and only if the digest is 'sha256:' followed by exactly 64 hexadecimal digits (either case); otherwise the whole parse fails with an error.",
 ["inputs"],"all digest strings: other algorithms, lengths around 64, non-hexadecimal characters at any position, extra colons, empty",
 "One valid and three invalid digests are tested; all invalid ones have a wrong length or prefix, none a wrong character.",
 [INS+"from.rs"],[("digest validation",INS+"from.rs")])
p("C22","Splicing replaces exactly the named spans, in any order",
 "After any sequence of replacements on one splicer, with spans given in original coordinates that are pairwise disjoint, nested with the inner one replaced first, or repeated, the content equals the original with each span's text replaced by its latest replacement and every other byte untouched. This holds for growing, shrinking, empty and multi-byte replacements and does not depend on the order in which disjoint spans are spliced.",
 ["histories","inputs"],"all sequences of splice operations over span sets of any document, including deletion followed by re-replacement, adjacent spans and insertions at a span's start",
 "One doc-test performs a single splice; the offset bookkeeping that matters only from the second splice on is not tested at all.",
 [S],[("Splicer::splice",S),("Span::adjust_offsets",S)],[("splice_offsets","history of earlier replacements",S)])
p("C23","Rewriting parsed spans and re-parsing changes just those elements",
 "Replacing the span of an image, alias, flag value, ARG value, path, label or environment key or value, or exec-form element of a valid Dockerfile by other valid text of that kind, for any subset of elements in any order, gives text that parses to the same Dockerfile with exactly those contents changed; replacing spans by their own text gives the identical text and parse.",
 ["histories","inputs"],"all valid files, subsets of rewritable elements, replacement values and orders",
 "Only the image span of a single one-line FROM is rewritten in a doc-test, and the result is never re-parsed.",
 [S,D,"examples/splice.rs"],[("Splicer::splice",S),("element spans",INS)])
p("C24","Relative positions name the right line and column",
 "For any span of a parsed Dockerfile, the relative position gives the number of line feeds before the span's start as the line, the byte distance from that line's beginning as the start, and keeps the span's length, so that line and columns address the same text as the absolute span.",
 ["inputs"],"all texts (multi-byte characters, CRLF, blank lines, no final newline) and all spans in them, including at the very beginning, at line starts, and at the end of the text",
 "One test checks five spans in one five-line ASCII file.",
 [S],[("Span::relative_span",S)])
p("C25","Typed access agrees with the instruction kind",
 "For every parsed instruction, also with its fields set to anything since, exactly one of the typed accessors (borrowing, consuming and conversion forms alike) succeeds, it is the one for its kind, and it returns that very instruction; all others give nothing or a conversion error naming the requested type. The generic span equals the specific instruction's span, shell/exec accessors are mutually exclusive and return the stored expression, and wrapping an instruction value and unwrapping it gives the same value.",
 ["inputs"],"all instructions of all kinds",
 "Tests call a few accessors on the expected kind only; no negative case and no conversion error is checked.",
 [D,U]+[INS+x+".rs" for x in("run","cmd","entrypoint","from","arg","copy","label","env","misc")],
 [("as_*/into_*/TryFrom/From",D)])
p("C26","Malformed instructions fail the whole parse and are located",
 "A file containing a malformed instruction (junk or a second instruction after a complete FROM, ARG, LABEL, key=value ENV or exec form, a missing alias or value, a line that does not start with a word, a bare word without arguments, an unterminated quoted ARG or LABEL value, a wrong escape in any quoted value, a continuation after a complete FROM, ARG or COPY, a continuation at the end of the file with no line to continue to) is rejected as a whole, wherever in the file it stands; it is never silently skipped or truncated. When a syntax error is reported, its position lies on the malformed instruction, after everything before it that is well-formed.",
 ["inputs"],"all kinds of malformed instruction, at every position of otherwise valid files",
 "A few one-line invalid snippets are checked for is_err only, and no error position is checked.",
 [G,D,"src/error.rs"],[("rule dockerfile requires EOI",G),("error propagation",D)])
p("C27","Acceptance and result follow the documented syntax on arbitrary text",
 "For any text whatsoever, the parser accepts it exactly if it is a sequence of lines each holding nothing, a comment, or one instruction in the supported Dockerfile syntax, and then reports exactly the instructions, parts and spans that syntax prescribes. Quoted strings must be well escaped and FROM digests valid, everything else is rejected.",
 ["inputs"],"arbitrary texts: token soups, mutated valid files, truncated files, exotic whitespace and control characters",
 "The tests sample under a hundred texts, nearly all valid.",
 [G,D,U,INS],[("the whole grammar",G),("AST construction",INS)])
p("C28","Displayed commands equal Docker's logical line",
 "Printing any multi-line string (shell commands, single-form ENV values, arguments of unknown instructions) gives what Docker's line processing yields for the source text under its span: comment lines removed, each backslash at a line end removed together with trailing blanks and the line break, and the remaining pieces joined with nothing added. Comments inside a command line are kept.",
 ["inputs"],"every multi-line string in every accepted text",
 "Three fixed commands are printed in tests.",
 [U,G],[("Display for BreakableString",U),("any_breakable",G)])
p("C29","Quoting round-trips: any value survives quoting in every quoted position",
 "For any text value, writing it in single or double quotes with the supported backslash escapes in an ARG value, LABEL name or value, ENV value, or exec-form element parses back to exactly that value; distinct values stay distinct, and a quoted string with an invalid escape or code point is an error rather than a wrong value.",
 ["inputs"],"all unicode values, both quote characters and all choices of escape spelling per character, in every quoted position",
 "About ten fixed quoted strings with at most one escape each.",
 [U,INS+"label.rs",INS+"env.rs",INS+"arg.rs",G],[("parse_string / unquote",U),("string rules",G)])
p("C30","Values can be built, copied, compared and ordered by their fields",
 "Every part of a parsed Dockerfile can be built by hand through the public constructors (spans, multi-line strings piece by piece, labels, environment variables, image references) and then equals the parsed one; a copy equals the original. Two values are equal exactly if all their fields are: a difference in any single span, text, component kind, flag, list length, instruction kind or image part makes them unequal. Spans order by start, then end, and texts with spans by span, then text; multi-line strings and string arrays order by span, then by their parts one after the other, a string before a comment. A multi-line string built by hand prints the concatenation of its strings and iterates over its components as added.",
 ["inputs"],"all instructions, all ways to build them, and all single-field differences",
 "Tests build expected values and compare them for equality, so a comparison that ignores a field makes them pass rather than fail; no test expects two values to differ.",
 [U,S,D,I]+[INS+x+".rs" for x in("label","env","from")],[("BreakableString::add*, From impls",U),("PartialEq/Ord/Clone",U),("Span::new, From<(usize, usize)>",S),("EnvVar::new",INS+"env.rs"),("Label::new",INS+"label.rs")])
p("C31","Queries are pure: answers depend only on the document asked",
 "Stages, stage and ARG lookups, image resolution, relative positions, splicing through a splicer, displaying and re-parsing leave a parsed Dockerfile unchanged, and each gives the same right answer whatever was asked before, of this or of any other document, in any order and from any thread.",
 ["histories","inputs","schedules"],"all sequences of queries over several documents, including near-identical ones, interleaved and concurrent",
 "Each test asks one document one question; nothing is asked twice, of two documents in turn, or from two threads.",
 [D,ST,I,S,U],[("Dockerfile::stages / get_global_arg / splicer",D),("Stages::get_by_name",ST),("resolve_vars",I)])
p("C32","Resolved images can be written back into the file",
 "For any Dockerfile, replacing through one splicer the image span of every FROM whose variables resolve by the printed resolved reference gives a file that parses to the same instructions with exactly those images changed; the written images decompose to the resolved references, resolve to themselves using no variables, and the stages of the new file have the parents the resolved names say. Images that do not resolve are left as they were.",
 ["inputs","histories"],"all files with global and local ARGs, FROMs using them, and all orders of the replacements",
 "The documentation shows this workflow for one image in one file; tests never combine ARG, resolution, printing, splicing and re-parsing.",
 [D,I,S,ST,INS+"from.rs",INS+"arg.rs","examples/splice.rs"],[("resolve_vars",I),("Splicer::splice",S),("Display for ImageRef",I)])
p("C33","A rejection names its cause, and the place of a syntax error",
 "Any rejected text is reported by an error that tells the first cause: a syntax error if the text does not follow the syntax anywhere, else an unescaping error or an invalid-digest error, whichever comes first in the file. The message is not empty; a syntax or unescaping error carries its source. A syntax error's position lies inside the text on a character boundary, never before the first line that is not well-formed, and its line number and message agree with it.",
 ["inputs"],"all rejected texts",
 "Tests check is_err on a few snippets, one error variant, and no position or message.",
 ["src/error.rs",D,G,U,INS+"from.rs"],[("Error variants and context",'src/error.rs'),("parse_dockerfile",D)])
p("C34","Queries follow a document's fields as they stand",
 "A document whose instruction list was edited or put together by hand (instructions removed, moved, repeated, inserted or taken from other documents, images, aliases and ARGs changed to any text, spans and source text left as they were or made meaningless), with its global arguments and FROM numbers kept in step with the list, answers stage listings, stage and ARG lookups and image resolution exactly as a parsed document with that instruction list would: from the present fields, never from the source text, the spans or the state before the edit.",
 ["histories","inputs"],"all sequences of edits of all documents, and queries between them",
 "Tests query freshly parsed documents only, where text, spans, list and global arguments cannot disagree.",
 [D,ST,I],[("Stages::new",ST),("Dockerfile::get_global_arg",D),("resolve_vars_with_context",I)])
p("C35","Queries stay cheap on large documents",
 "The memory allocated and the processor time taken by one query on a parsed document (copying or comparing it, displaying its commands and images, listing exec strings, spans and typed access, a relative position, an ARG lookup, a splice) is at most a constant times the size of its text; listing the stages allocates at most a constant times that size for every FROM.",
 ["inputs"],"all large documents: many instructions, instructions with many parts, and mixtures",
 "Test inputs have a few lines; cost is not measured.",
 [U,S,ST,D,I],[("Display for BreakableString",U),("Span::relative_span / Splicer::splice",S),("Stages::new",ST)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
