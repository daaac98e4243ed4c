//! The checks

use crate::driver::{Check, Fixed, Phase};
use crate::engine::{CheckFn, Failure, Outcome};
use crate::style::{Aspect, Size};
use crate::*;
use mofmt::SyntaxKind;
use std::sync::Arc;

const PROGRAM: &str = "programs are derived from an annotated grammar of Modelica (all class kinds, prefixes, sections, modifications, redeclarations, equations, statements, expressions) and laid out with random whitespace, line breaks (LF/CRLF), blank lines and comments at every lexeme boundary;";

fn one(f: fn(&engine::Case) -> Outcome) -> Arc<CheckFn> {
    Arc::new(f)
}

/// Programs of ordinary size, long ones, and those that 16 bits cannot count
fn programs<F>(cases: u32, f: F) -> Vec<Phase>
where
    F: Fn(&engine::Case, Size) -> Outcome + Send + Sync + Clone + 'static,
{
    let g = f.clone();
    let usual: Arc<CheckFn> = Arc::new(move |c| f(c, Size::Usual));
    vec![
        Phase::new("programs", usual.clone(), cases),
        Phase::new("long programs", usual, 6_000).sizes(20_000, 20_000, 600),
        Phase::new(
            "very long programs",
            Arc::new(move |c| g(c, Size::VeryLong)),
            48,
        )
        .sizes(20_000, 20_000, 600),
    ]
}

pub fn make(id: &str) -> Option<Check> {
    let model = vec![
        "the reference model of the code style (harness/src/model.rs) is right; it agrees with the formatter on the full text of more than a million generated programs",
        "nesting and length of generated programs are bounded (at most some 150000 lexemes)",
    ];
    let mut c = Check {
        id: "",
        rule: "",
        assumptions: Vec::new(),
        phases: Vec::new(),
        fixed: None,
        cleanup: None,
    };
    let style = |mut c: Check, id, a: Aspect, rule| {
        c.id = id;
        c.rule = rule;
        c.assumptions = model.clone();
        c.phases = programs(520_000, move |c, n| style::style(c, a, n));
        Some(c)
    };
    let cli = vec![
        "the binary runs as an unprivileged user in scratch directories; permission faults are left out where that is not possible",
        "no cycles of symbolic links, no concurrent modification of the files",
    ];
    match id {
        "C01" => {
            c.id = "C01";
            c.rule = "programs are derived from an annotated grammar of Modelica and laid out with random whitespace, line breaks, blank lines and comments at every lexeme boundary (phases: usual, up to 4000, and over 66000 lexemes); the lexemes of the formatted text, found by a reference lexer, are compared with those generated; non-trivial: at least 12 lexemes";
            c.assumptions = vec!["the reference lexer (harness/src/lexis.rs) is right"];
            c.phases = programs(520_000, style::code_preserved);
            Some(c)
        }
        "C02" => {
            c.id = "C02";
            c.rule = "as C01, with comments (line and block, single- and multi-line, stacked, non-ASCII) in any gap; comments of every gap of the output are compared with those of the source; non-trivial: at least two comments at places where the output wraps a line";
            c.assumptions = model;
            c.phases = programs(520_000, style::comments_kept);
            Some(c)
        }
        "C03" => {
            c.id = "C03";
            c.rule = "as C01; the formatted text with its end of line is formatted again and compared; non-trivial: the source was not formatted yet and has at least 12 lexemes";
            c.phases = programs(520_000, style::idempotent);
            Some(c)
        }
        "C04" => {
            c.id = "C04";
            c.rule = "pairs of layouts of one generated program with the same line structure and different horizontal whitespace, line ends, and numbers of blank lines; non-trivial: the texts differ and have at least 12 lexemes";
            c.phases = programs(400_000, relate::whitespace_independent);
            Some(c)
        }
        "C05" => style(c, "C05", Aspect::Spacing, "as C01; the text between every two lexemes or comments of an output line is compared with the reference model; non-trivial: at least four single spaces are due"),
        "C06" => style(c, "C06", Aspect::Indentation, "as C01; the indentation of every line of the output is compared with the reference model; non-trivial: at least two lines are due to be indented by two levels or more"),
        "C07" => style(c, "C07", Aspect::Wraps, "as C01; line breaks of the output are compared with the places where the grammar demands or forbids them; non-trivial: at least four mandatory breaks"),
        "C08" => style(c, "C08", Aspect::Blanks, "as C01; the number of blank lines in every gap of the output is compared with the reference model; non-trivial: at least four blank lines are due"),
        "C09" => style(c, "C09", Aspect::Lists, "as C01; for every list, whether its items are wrapped is compared with whether the source spreads it over several lines (or has to); non-trivial: at least one wrapped item"),
        "C10" => style(c, "C10", Aspect::Operators, "as C01; for every binary operator, whether it is wrapped is compared with the lines of its operands in the source; non-trivial: at least one wrapped operator"),
        "C11" => {
            c.id = "C11";
            c.rule = "sentences of two independently written grammars (an annotated generator and a BNF), and mutants of them that an Earley recogniser still accepts, in random layouts with comments, some with one construct repeated up to 1100 times; non-trivial: at least 10 lexemes";
            c.assumptions = vec!["the grammar of harness/src/bnf.txt is the supported one"];
            c.phases = vec![
                Phase::new("sentences", one(accept::valid_accepted), 700_000),
                Phase::new("long sources", one(accept::long_accepted), 1_000),
                Phase::new("generators agree", one(accept::generators_agree), 16_000).factor(10),
            ];
            Some(c)
        }
        "C12" => {
            c.id = "C12";
            c.rule = "sentences with 1 to 3 random edits of lexemes (deletion, insertion, replacement, transposition, duplication, truncation, copied or deleted ranges), and sentences of grammars that differ in one rule (a symbol omitted, doubled, exchanged, replaced or added), that an Earley recogniser rejects; non-trivial: the first invalid lexeme is preceded by at least three";
            c.assumptions = vec!["the grammar of harness/src/bnf.txt is the supported one"];
            c.phases = vec![
                Phase::new("mutants", one(accept::invalid_rejected), 450_000),
                Phase::new("deviants", one(accept::deviant_rejected), 900_000),
            ];
            Some(c)
        }
        "C13" => {
            c.id = "C13";
            c.rule = "as C12, and lexically invalid sources; locations of all errors are compared with the lexemes of a reference lexer, the first one with the first lexeme an Earley recogniser cannot accept; non-trivial: the first invalid lexeme is preceded by at least three, or the error is lexical";
            c.assumptions = vec!["the grammar of harness/src/bnf.txt is the supported one"];
            c.phases = vec![Phase::new("mutants", one(accept::errors_located), 600_000)];
            Some(c)
        }
        "C14" => {
            c.id = "C14";
            c.rule = "random characters, lexemes, mutated and damaged programs, very long or deep programs; each is parsed (and formatted, if accepted) in-process with its peak memory and processor time measured, and some are given to the binary; non-trivial: over 20 characters";
            c.assumptions = vec![
                "a text may use 1 MiB + 2000 bytes of memory per byte and 1.5 s + 4 us of processor time per byte, about 8 times more than ever observed",
                "stack overflows are looked for in the binary only, with moderate nesting; see known findings",
            ];
            c.phases = vec![
                Phase::new("texts", one(total::any_text), 960_000),
                Phase::new("files", one(total::any_file), 10_000).factor(10),
            ];
            c.fixed = Some(Box::new(total::fixed));
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C15" => {
            c.id = "C15";
            c.rule = "programs, lexemes in any order, and fragments of lexemes next to each other; text, positions, numbering and class of every lexeme and comment are compared with a reference lexer; non-trivial: at least five lexemes";
            c.assumptions = vec!["malformed numerals (`1e`) are out of the domain"];
            c.phases = vec![
                Phase::new("lexemes", one(lexcheck::lexemes_exact), 560_000),
                Phase::new("long sources", one(lexcheck::lexemes_exact_long), 300),
            ];
            Some(c)
        }
        "C17" => {
            c.id = "C17";
            c.rule = "fragments of 90 grammar rules in random layouts, parsed and formatted with the rule as the entry point; non-trivial: at least three lexemes";
            c.assumptions = vec!["empty fragments are out of the domain"];
            c.phases = vec![Phase::new("fragments", one(entry::entry_points), 1_000_000)];
            Some(c)
        }
        "C18" => {
            c.id = "C18";
            c.rule = "random trees of formatted, nearly formatted, unformatted, invalid and inaccessible files given to `mofmt --check`; names, contents, modes, inodes and modification times are compared with those before, verdicts with what formatting the files does; non-trivial: at least one file is valid";
            c.assumptions = cli;
            c.phases = vec![Phase::new("trees", one(cli::check_mode), 24_000).factor(15).sizes(500, 400, 500)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C19" => {
            c.id = "C19";
            c.rule = "random trees of valid, invalid, not UTF-8 and other files given to `mofmt`; all contents are compared with what the library makes of each, and with runs on single files; non-trivial: at least two paths";
            c.assumptions = cli;
            c.phases = vec![Phase::new("trees", one(cli::format_mode), 20_000).factor(15).sizes(500, 400, 500)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C20" => {
            c.id = "C20";
            c.rule = "random directory trees with names similar to `*.mo`, given in mixed order with files and bad paths to `mofmt --check` and `mofmt`; the files processed, reported and read are compared with those named `*.mo` below the paths; non-trivial: a directory with at least one file";
            c.assumptions = cli;
            c.phases = vec![Phase::new("trees", one(cli::directories), 20_000).factor(15).sizes(500, 400, 500)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C21" => {
            c.id = "C21";
            c.rule = "random trees with faults (syntax errors, invalid UTF-8, missing, unreadable, read-only files, unreadable directories, dangling links, wrong extensions) at random positions given to `mofmt --check` and `mofmt`; reports, exit status and all contents are compared with those expected; non-trivial: faults and files without faults";
            c.assumptions = cli;
            c.phases = vec![Phase::new("trees", one(cli::faults), 24_000).factor(15).sizes(500, 400, 500)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C22" => {
            c.id = "C22";
            c.rule = "two to four generated classes, elements, equations or statements formatted separately, and together (in one file, section or block, or nested deeper); non-trivial: over 60 characters";
            c.phases = vec![
                Phase::new("chunks", one(relate::compositional), 340_000),
                Phase::new("long files", one(relate::compositional_long), 600),
            ];
            Some(c)
        }
        "C23" => {
            c.id = "C23";
            c.rule = "generated programs with and without identifiers, literals and comment texts replaced by others of very different length; the text of every gap of the outputs is compared; non-trivial: something was replaced, at least 12 lexemes";
            c.phases = programs(400_000, relate::name_independent);
            Some(c)
        }
        "C24" => {
            c.id = "C24";
            c.rule = "argument lists that begin with an option, or are empty, followed by files, directories and options; exit status, stdout, stderr and all files are compared with those expected; every case is non-trivial";
            c.assumptions = cli;
            c.phases = vec![Phase::new("invocations", one(cli::options), 40_000)
                .factor(10)
                .sizes(0, 0, 40)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C25" => {
            c.id = "C25";
            c.rule = "random trees of files given to `mofmt` with a random limit on the size of files, so that writing some of them fails part-way; all contents, reports and the exit status are compared with those expected; non-trivial: writing a file that would change fails";
            c.assumptions = cli;
            c.phases = vec![Phase::new("trees", one(cli::failing_writes), 20_000).factor(15).sizes(500, 400, 500)];
            c.cleanup = Some(cli::cleanup);
            Some(c)
        }
        "C26" => {
            c.id = "C26";
            c.rule = "histories of 4 to 15 calls over two to five texts (programs, fragments, invalid ones) with different names and entry points, each called at least twice, some again in a new thread; lexemes, errors and formatted text of every call are compared with those of the first one; non-trivial: at least one valid text, over 100 characters together";
            c.phases = vec![Phase::new("histories", one(history::no_memory), 160_000)];
            Some(c)
        }
        // Validates the reference model
        "exact" => {
            c.id = "exact";
            c.rule = PROGRAM;
            c.phases = programs(520_000, style::exact);
            Some(c)
        }
        _ => None,
    }
}

/// Outcome of a fixed case as a result
pub fn fixed(o: Outcome) -> Fixed {
    match o {
        Outcome::Fail(f) => Fixed::Broken(f),
        _ => Fixed::Fine,
    }
}

pub fn broken(source: &str, detail: String) -> Fixed {
    Fixed::Broken(Failure {
        source: source.to_string(),
        detail,
    })
}

pub const WHOLE: SyntaxKind = SyntaxKind::StoredDefinition;
