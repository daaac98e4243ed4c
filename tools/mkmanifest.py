#!/usr/bin/env python3
"""Writes MANIFEST.json (committed), from properties.jsonl and the table below."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("grammar-based property test: round trip of lexemes through a reference lexer", "Random search over generated programs and layouts; trusts the reference lexer."),
 "C02": ("grammar-based property test against a reference model of comment placement", "Random search; trusts the annotated generator, which knows where the output wraps."),
 "C03": ("property test: idempotence of the formatter", "Random search; the oracle is the formatter itself (second run)."),
 "C04": ("metamorphic property test: pairs of layouts", "Random search over pairs; no model needed."),
 "C05": ("grammar-based property test against a reference model of the code style", "Random search; trusts the spacing rules of the annotated generator."),
 "C06": ("grammar-based property test against a reference model of the code style", "Random search; trusts the indentation rules of the annotated generator."),
 "C07": ("grammar-based property test against a reference model of the code style", "Random search; trusts the wrapping rules of the annotated generator."),
 "C08": ("grammar-based property test against a reference model of the code style", "Random search; trusts the blank-line rules of the annotated generator."),
 "C09": ("grammar-based property test against a reference model of the code style", "Random search; trusts the list rules of the annotated generator."),
 "C10": ("grammar-based property test against a reference model of the code style", "Random search; trusts the operator rules of the annotated generator."),
 "C11": ("generated sentences of two grammars, differential with an Earley recogniser", "Random search; trusts the BNF in harness/src/bnf.txt."),
 "C12": ("mutation-based differential test with an Earley recogniser", "Random search over near-valid sources; trusts the BNF in harness/src/bnf.txt."),
 "C13": ("mutation-based differential test of error locations (Earley recogniser, reference lexer)", "Random search over near-valid sources; trusts the BNF and the reference lexer."),
 "C14": ("fuzzing (characters, lexemes, damaged programs, extreme shapes) with resource metering", "Random search; panics, exit status, memory and processor time are observed. Known stack overflows are listed."),
 "C15": ("differential property test with a reference lexer", "Random search; trusts the reference lexer."),
 "C16": ("grammar-based property test: tree against the generated derivation", "Random search; trusts the derivations of the annotated generator. Needs the hook."),
 "C17": ("grammar-based property test over all entry points", "Random search; trusts the annotated generator."),
 "C18": ("property test of the binary on generated trees of files: snapshots, differential with format mode", "Random search; the binary really runs, as an unprivileged user."),
 "C19": ("property test of the binary on generated trees of files: model of contents, differential with single runs", "Random search; the library tells what the formatted text is."),
 "C20": ("property test of the binary on generated directory trees against a model of the walk", "Random search; reads of other files are seen by access times where the file system keeps them."),
 "C21": ("fault injection by generated trees of files against a model of reports and contents", "Random search over kinds and positions of faults; permission faults need an unprivileged user."),
 "C22": ("metamorphic property test: parts formatted separately and together", "Random search; no model needed."),
 "C23": ("metamorphic property test: texts replaced by others", "Random search over pairs; no model needed."),
 "C25": ("fault injection: writes fail after a random number of bytes, in generated trees of files", "Random search over files and limits (RLIMIT_FSIZE); a process killed while it writes is out of the domain."),
 "C26": ("stateful property test: random histories of calls, each compared with its first result", "Random search over short histories; state that is never reset would have to show within the process."),
 "C24": ("property test of generated invocations against a table, with snapshots of files", "Random search over argument lists."),
}
props = [json.loads(l)["id"] for l in open(root / "properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "hooks": {
  "guard": "cargo feature `verif` of the mofmt crate",
  "enable": "treecheck/Cargo.toml depends on mofmt with features = [\"verif\"]; only the check of C16 uses it",
  "source_commits": hook,
 },
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]}
  for p in props if p in T],
 "not_applicable": [],
 "notes": "Replay a violation with `./check.sh replay <path>`. Genuine defects found: KNOWN_FINDINGS.txt. See DESIGN.md.",
}
assert set(T) == set(props)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
