#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
LEX="src/parser/lexing.rs"; PAR="src/parser/parsing.rs"; FMT="src/formatter/formatting.rs"; PRT="src/formatter/printing.rs"
TREE="src/parser/tree.rs"; MAIN="src/main.rs"; LIB="src/lib.rs"; STY="code-style.md"; PMOD="src/parser.rs"; SYN="src/parser/syntax.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ONE="The suite formats one 240-line sample and one expression; it cannot quantify over every program, layout and comment placement."
LIBO=["mofmt::parse + mofmt::pretty_print (library)","contents of the file rewritten by the mofmt binary"]
p("C01","Formatting never changes the code",
 "For every Modelica source accepted without syntax errors, the formatted text contains exactly the same code lexemes (keywords, identifiers, numbers, strings, operators, punctuation), byte for byte and in the same order, as the source. Nothing is dropped, duplicated, merged with a neighbour, split, or turned into a comment, whatever the line breaks, spacing and comments of the source were.",
 ["inputs","programs"],"all accepted sources: any grammar construct x any layout x any comment placement",ONE,
 [FMT,PRT,TREE,PAR,LEX],[("every token of the tree is emitted through handle_token",FMT),("build_tree pairs Advance events with tokens",TREE),("Marker::Token text is printed verbatim",PRT)],LIBO)
p("C02","Comments survive where lines are wrapped, and are never displaced",
 "Every comment standing where the output wraps a line (before a class definition, element, equation, statement, section keyword, `elseif`/`else`/`elsewhen`/`end` of a block, description, annotation or constraining clause; before a wrapped list item or wrapped binary operator; before the first and after the last class of the file) appears in the output exactly once, with its text unchanged, in the original order and between the same code lexemes; a comment that trails code on its line still trails that code, and a comment on a line of its own stays on a line of its own. Comments at other places may be discarded, but no comment is ever duplicated, altered, invented, reordered or moved across code.",
 ["inputs","programs"],"all accepted sources with comments (line and block, single- and multi-line, several per gap) at any token boundary","The sample has about 25 comments, all simple; first/last-in-file, multi-line, stacked and non-ASCII comments are never tried.",
 [FMT,LEX],[("handle_break / comments_before collect the comments before a wrap",FMT),("handle_trailing_comments flushes the rest",FMT)],LIBO,
 [("comments","queue of comments not emitted yet",FMT),("prev_line","line where the last emitted token ends; decides what is an inline comment",FMT)])
p("C03","Formatting is idempotent",
 "Formatting an already formatted file changes nothing: for every accepted source, the formatted text (with its final end of line) is accepted again and formatting it yields the identical text, so a run of mofmt is always followed by a passing `--check`. A single run is enough: nothing is left to be wrapped, unwrapped or re-indented by a second one.",
 ["inputs","programs"],"all accepted sources, with comments and blank lines anywhere","No test formats its own output; idempotence depends on how forced wraps, comments and original line numbers interact in nested constructs.",
 [FMT,TREE,MAIN],[("wrap decisions use original lines (is_multiline) or always-wrapped children (is_always_wrapped)",FMT),("is_multiline",TREE)],LIBO+["mofmt --check exit status"])
p("C04","The result depends only on line structure, not on horizontal whitespace",
 "Two sources that differ only in horizontal whitespace between lexemes (amount of spaces, tabs, indentation, trailing blanks), in LF versus CRLF line ends outside of strings and block comments, or in the number of consecutive blank lines (one or more), are formatted to the identical text.",
 ["inputs","programs"],"all pairs of accepted sources related by such an edit","It is a relation between pairs of inputs; the tests never compare two layouts of one program.",
 [LEX,FMT],[("whitespace is discarded by the lexer, only line numbers are kept",LEX),("blank lines are collapsed in handle_break/wrap",FMT)],LIBO)
p("C05","Horizontal spacing between lexemes follows the code style",
 "Two lexemes on the same output line are separated by exactly one space, or by nothing where the code style says so: no space before `;` (except in `within ;`), `,`, inside of brackets, around dots of names, before `(`/`[` of calls, subscripts and modifications (but one in `annotation (`), nor after unary `+`/`-`; exactly one space around binary operators, `=`, `:=` and `:` of ranges, after `not`, after every comma and matrix `;`, and around keywords. Discarded outputs keep their slots visible as in `( , a, , b)`.",
 ["inputs","programs"],"all accepted sources, all grammar constructs, all pairs of adjacent lexemes",ONE,[FMT,STY],[("Marker::Space pushed by each rule",FMT),("break_or_space",FMT)],LIBO)
p("C06","Indentation is two spaces per nesting level",
 "Every output line starts with two spaces per nesting level, and no level ever leaks past its construct: elements, equations and statements are one level inside their class or block while section keywords and block keywords are not indented relative to it; descriptions, annotations and constraining clauses are one level deeper than their owner; items of wrapped lists one level deeper than the construct; wrapped binary operators one level deeper, once per expression. Comments are indented like the code they precede.",
 ["inputs","programs"],"all accepted sources, arbitrary nesting of classes, blocks, lists and expressions","Only one nesting pattern is sampled; leaks need a particular construct to be wrapped and are visible only in what follows it.",
 [FMT,PRT,STY],[("Marker::Indent / Marker::Dedent pairs",FMT),("Printer.indent",PRT)],LIBO,[("indent","current indentation level",PRT)])
p("C07","Lines are wrapped at every mandatory place and nowhere else",
 "Independently of the layout of the source, every class definition, element, equation, statement, section keyword, block keyword (`elseif`, `else`, `elsewhen`, `end`), description string, annotation and constraining clause (and each enumeration item or list item next to one) starts on a line of its own. No line starts at any other place, except for list items (parts of if-expressions included) and binary operators that were wrapped manually.",
 ["inputs","programs"],"all accepted sources in all layouts, from everything-on-one-line to one-lexeme-per-line",ONE,[FMT,STY],[("handle_break before each rule",FMT),("is_always_wrapped",FMT)],LIBO)
p("C08","Blank lines are normalised",
 "Section keywords (`public`, `protected`, `equation`, `algorithm`, `external`), the beginning and the end of a class body and the class annotation are set off by exactly one blank line; between class definitions, elements, equations, statements and before block keywords a blank line appears exactly if the source had at least one there; next to comments blank lines are kept likewise. There are never two consecutive blank lines, blank lines are empty, none appears at other places (such as before descriptions, list items or operators), and the output neither begins nor ends with whitespace.",
 ["inputs","programs"],"all accepted sources, with 0..n blank lines between any lexemes and comments","The sample contains a few isolated blank lines; combinations with comments, sections and blocks are not covered.",[FMT,PRT,STY],[("Blank::{Required,Legal,Illegal} in handle_break",FMT),("Marker::Blank",PRT)],LIBO)
p("C09","Lists are wrapped consistently, at all items or at none",
 "In calls, array constructors, matrices and their rows, subscripts, modifications, component lists, enumerations, import lists, `connect`, `der(...)` classes, concatenated description strings and if-expressions: if the source wraps a line anywhere inside of the construct (nested constructs included), every item of it starts on its own line; otherwise, unless an item carries a description, annotation or constraining clause, the whole construct stays on one line.",
 ["inputs","programs"],"all accepted sources, all list-like constructs, any nesting, a line break at any lexeme boundary",ONE,[FMT,TREE,STY],[("is_multiline",TREE),("is_multiline parameters of the list rules",FMT)],LIBO)
p("C10","Line breaks inside expressions are preserved",
 "In arithmetic, logical and relational expressions a line is wrapped before a binary operator exactly if the source had a line break between its two operands (before or after the operator), and the break is always placed before the operator. Other operators of the same expression are not affected, and breaks elsewhere in an expression (after a unary operator, parenthesis, or dot) are removed.",
 ["inputs","programs"],"all accepted sources, expressions with all operators and nesting, a line break at any lexeme boundary",ONE,[FMT,STY],[("next operand's line > prev_line in logical_expression .. factor",FMT)],LIBO)
p("C11","Every valid Modelica source is accepted",
 "Every sentence of the supported Modelica grammar, in any layout and with comments between any two lexemes, is parsed without reporting an error. This covers all class kinds, prefixes, sections, modifications, redeclarations, equations, statements and expressions of the language.",
 ["inputs","programs"],"all sentences of the grammar (excluding equations that start with `initial(`/`end`, which the section structure makes ambiguous)","Parser tests sample about 25 fragments; the grammar has about 90 mutually recursive rules.",[PAR,LEX,SYN],[("recursive-descent rules with 1-3 token lookahead",PAR)],["errors returned by mofmt::parse","mofmt exit status"])
p("C12","Nothing outside of the grammar is accepted",
 "A source whose lexeme sequence is not a sentence of the supported Modelica grammar is always reported as having syntax errors, so it is never reformatted. In particular no deletion, insertion, replacement or transposition of lexemes that leaves the grammar goes unnoticed.",
 ["inputs","programs"],"all lexeme sequences, in particular near-valid ones","Three negative tests exist. Deciding acceptance for arbitrary sequences needs an independent recogniser.",[PAR],[("expect / advance_with_error report everything the grammar does not allow",PAR)],["errors returned by mofmt::parse"])
p("C13","Syntax errors are located at the offending lexeme",
 "Every reported error has the form `<name>:<line>:<column>: <message>` with the given source name and the 1-based line and character column of a lexeme (or offending character) of the source. The first grammar error is located at the first lexeme that cannot continue any valid source, or at the one directly before it; if the source just ends too early, at its last lexeme. Errors of the grammar are listed in the order of the source and never twice, and a message that names the lexeme found names the one at its location. A lexically invalid source always reports the start of the offending lexeme.",
 ["inputs"],"all invalid sources, including tabs, multi-line strings, comments and non-ASCII text before the error","One lexer error position is tested; columns after non-ASCII text, line counting across comments and strings, and parser positions are not.",[PAR,LEX],[("Lexer::next maintains line and col",LEX),("Parser::error",PAR)],["errors returned by mofmt::parse"],[("current/start","position of the lexer",LEX)])
p("C14","Any text is handled without crashing",
 "Parsing any UTF-8 text, valid or not (truncated, mutated, random, empty, non-ASCII), terminates without a panic using resources bounded in proportion to its size, and either reports at least one error or yields a result that can be formatted. The mofmt binary never dies from the content of a file.",
 ["inputs"],"all UTF-8 texts","Robustness is a statement about all texts, most of them malformed; tests try a handful of well-formed ones.",[LEX,PAR,TREE,FMT],[("lookup budget (lifes) stops a parser that makes no progress",PAR),("build_tree asserts",TREE)],["absence of panics in mofmt::parse/pretty_print","exit status of the binary (never 101 or a signal)"],[("lifes","lookups left before the parser gives up",PAR)])
p("C15","Lexemes tile the source with exact positions and classes",
 "For a lexically valid source, the lexemes and comments returned by the parser are exactly its lexemes and comments: each carries the text, byte offsets and 1-based line and character columns of its occurrence, their numbering follows source order, and everything between them is whitespace. Each is classified as the language defines: keywords, operators (longest match), identifiers (plain and quoted), strings with escapes, integers, reals, line and block comments.",
 ["inputs"],"all sequences of valid lexemes, whitespace and comments","Four tests check a few tokens each.",[LEX,"src/parser/tokens.rs"],[("lex_* functions",LEX),("generate_token",LEX)],["tokens and comments of the value returned by mofmt::parse"])
p("C16","The syntax tree mirrors the derivation of the source",
 "For every accepted source, the syntax tree lists all code lexemes, each exactly once and in source order, and its nodes are exactly the non-empty constructs of the grammar derivation, with right kinds and nesting (operator precedence included). For each node the reported first and last lexeme, containment of construct kinds, and being spread over several lines agree with its content.",
 ["inputs","programs"],"all accepted sources","Three tests look at the number of children of two small fragments.",[TREE,PAR,"src/parser/events.rs"],[("Enter/Exit/Advance events",PAR),("build_tree, start, end, contains, is_multiline",TREE)],["mofmt::build_tree"],(),"feature `verif` names the tree types")
p("C17","Every grammar rule works as an entry point",
 "For every grammar rule the library exposes, a valid fragment of that rule is parsed without errors when the rule is chosen as the entry point, the resulting tree has that rule as its root and covers the whole fragment, and the fragment can be formatted with all its lexemes preserved and spaced by the same rules as in a complete file.",
 ["inputs","programs"],"all rules x all fragments","Seven rules are tried, with fixed inputs, and only two of them through the formatter.",[PAR,FMT,PMOD,LIB],[("dispatch in Parser::parse",PAR),("dispatch in format",FMT)],["mofmt::parse(_, _, kind), mofmt::build_tree, mofmt::pretty_print"])
p("C18","Check mode never writes, and its verdict is exact",
 "`mofmt --check` leaves every file and directory as it was. For each file free of syntax errors it reports `check passed` exactly if formatting that file would leave its content unchanged, and `check failed` otherwise; its exit status is zero exactly if all files pass and none is invalid or unreadable.",
 ["inputs","configurations"],"all sets of files (formatted, unformatted, slightly off, invalid, unreadable) and path lists","The CLI has no tests.",[MAIN],[("check branch of format_files",MAIN)],["exit status, stdout and file system of `mofmt --check`"])
p("C19","Format mode writes exactly the formatted text, and only to valid files",
 "Running `mofmt` on files replaces the content of each file free of syntax errors by its formatted text followed by a single end of line, and leaves files with syntax errors, files that are not valid UTF-8 and files without the `.mo` extension byte-identical. Exit status is zero exactly if every path was formatted; the result for one file does not depend on which other files are processed in the same run, or on their order.",
 ["inputs","configurations"],"all sets of valid, invalid and unreadable files and path lists","The CLI has no tests.",[MAIN,LIB],[("format_files, read_file, write_file",MAIN)],["exit status and file system after `mofmt`"])
p("C20","Directories are searched recursively for .mo files, and for nothing else",
 "For a directory argument exactly the files with extension `mo` at any depth below it are processed, each once (a symbolic link counts as what it points to); no other file is read, changed or reported, and nothing is created or removed. Files and directories can be mixed in any order, and a file named directly that does not end in `.mo`, or does not exist, is reported as an error without stopping the run.",
 ["inputs","configurations"],"all directory trees and path lists (without symbolic-link cycles)","The CLI has no tests; early releases had directory-walk bugs (CHANGELOG 0.1.1, 0.1.2).",[MAIN],[("get_files_from_dir, is_modelica",MAIN)],["file system, stdout, stderr of `mofmt` and `mofmt --check`"])
p("C21","A bad file never affects the processing of the others",
 "Whatever goes wrong with one path (syntax errors, invalid UTF-8, missing, unreadable or unwritable file, unreadable directory, wrong extension), it is reported together with its name (its path), every other path of the run is processed just as in a run without it, and the exit status is 1. This is so even if the reports cannot be written (closed pipe, full disk).",
 ["inputs","fault_sequences"],"all path lists with faults of these kinds at any positions","No test runs the CLI, and none injects an I/O fault.",[MAIN],[("per-file match in format_files",MAIN)],["exit status, stdout, stderr, file system"])
p("C22","Formatting is compositional",
 "The layout given to a class, element, equation or statement does not depend on what precedes or follows it: formatting a file made of several class definitions gives the concatenation of the separately formatted classes, and nesting a class into a package gives the same lines indented by one more level (apart from the interior of multi-line strings and comments).",
 ["inputs","programs"],"all accepted sources, all ways to concatenate or nest them","It relates the results for several inputs; state leaking from one construct to a later one (indentation, previous line, pending comments) needs a specific combination.",[FMT,PRT],[("Formatter state: markers, prev_tok, prev_line",FMT),("Printer.indent",PRT)],LIBO)
p("C23","Layout does not depend on names, literals or line length",
 "Replacing identifiers, numbers, strings (without line breaks) and comment texts of a source by others of the same kind, of any length, changes nothing in the output but these texts: all line breaks, spaces and indentation stay the same. There is no maximum line length.",
 ["inputs","programs"],"all accepted sources and all such consistent or inconsistent renamings, including non-ASCII texts","A relation between pairs of inputs; no test has long lines or non-ASCII comments.",[LEX,FMT],[("formatting uses token kinds and lines only",FMT)],LIBO)
p("C24","Only well-formed invocations touch files",
 "`-h`/`--help` and `-v`/`--version` as the first argument print the usage or the version and exit with 0; no argument at all, `--check` without paths, and any unknown option as the first argument print an error with the usage to standard error and exit with 1. None of these invocations modifies any file, whatever other arguments follow.",
 ["configurations","inputs"],"all argument lists starting with an option, or empty","The CLI has no tests.",[MAIN],[("argument handling in main",MAIN)],["exit status, stdout, stderr, file system"])
p("C25","A file that cannot be rewritten keeps its contents",
 "If writing the formatted text of a file fails at any point (full disk, limit of the size of files, missing permission), the file still has the contents it had before, the failure is reported with the name of the file and the exit status is 1; all other files of the run are formatted as usual.",
 ["fault_sequences","inputs"],"all sets of files, and all numbers of bytes after which writing fails","No test runs the CLI or injects a fault into a write.",[MAIN],[("write_file",MAIN)],["exit status, stderr, contents of the files"])
p("C26","Parsing and formatting have no memory",
 "The lexemes, comments, errors and formatted text obtained for a source, name and entry point are the same every time: they do not depend on what the process parsed or formatted before (valid or not, in which order, in which thread).",
 ["histories","inputs"],"all sequences of calls of `parse` and `pretty_print`","Each test makes one call.",[LIB,FMT],[("no static or thread-local state",LIB)],LIBO)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        if x["anchors"]["hook_needed"] is None: pass
        f.write(json.dumps(x)+"\n")
print(len(P))
