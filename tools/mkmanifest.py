#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
LEX = "The oracle is an independently written lexer over the same grapheme segmentation library; its agreement with the documentation was reviewed by hand. Holds for the executions explored only."
GRAM = "The oracle is the tree the text was generated from and an independently written grammar; both were reviewed against the parser's documentation and tests. Holds for the executions explored only."
RES = "The oracle is an independently written scope model. Holds for the executions explored only."
T = {
 "C01": ("crash monitor over hostile inputs (overflow checks, panic and signal capture)", "Every entry point runs in worker processes with overflow checks and debug assertions on; panics, aborts and fatal signals are caught and attributed to the input. Very deep nesting overflows the stack: 24 known findings."),
 "C02": ("step-clock monitor on compiler edge instrumentation", "Executed edges of the crate are counted; the work per byte must stay under a constant and must not grow with the size of repeated inputs; token, node and error counts likewise."),
 "C03": ("runtime monitor: token cursor over the source", LEX),
 "C04": ("runtime monitor: positions recomputed from the source", LEX),
 "C05": ("runtime monitor: indentation stack model", LEX),
 "C06": ("runtime monitor: logical-line model", LEX),
 "C07": ("runtime monitor: independent lexer as oracle", LEX),
 "C08": ("metamorphic monitor: neutral layout edits", "Relates two executions of the real code; the edits are placed with the help of the independent lexer."),
 "C09": ("trace oracle: generated trees and precedence model", GRAM),
 "C10": ("trace oracle: generated trees and reference grammar", GRAM),
 "C11": ("trace oracle: generated trees and reference grammar", GRAM),
 "C12": ("trace oracle: generated trees and reference grammar", GRAM),
 "C13": ("trace oracle: generated literals in all notations", GRAM),
 "C14": ("conservation monitor: tree contents against source tokens", "What the tree contains is compared with the tokens of the source, as a multiset in order; the token side is read by the independent lexer."),
 "C15": ("differential monitor: independent grammar", GRAM),
 "C16": ("monitor over accepted trees and errors", GRAM),
 "C17": ("runtime monitor: positions of nodes against source", GRAM),
 "C18": ("runtime monitor: error positions against source and grammar", "Positions and quoted texts of all errors are checked against the source; where the first error must be is given by the reference grammar. Message wording is not judged."),
 "C19": ("runtime monitor: independent lexer as oracle", LEX),
 "C20": ("metamorphic monitor: error recovery", "Relates the errors of a combined source to those of its remainder alone."),
 "C21": ("runtime monitor: independent scope model", RES),
 "C22": ("runtime monitor: slot model over programs and sessions", RES),
 "C23": ("runtime monitor: independent rule checker", RES),
 "C24": ("conservation monitor: tree before and after resolution", "Relates the input and output of the real resolver; bindings set everywhere is checked with the scope model."),
 "C25": ("history monitor: sessions with and without failures", "Relates two sessions of the real resolver, one fed only the accepted sources; every statement kind of failure is injected."),
 "C26": ("metamorphic monitor: concatenation and nesting", "Relates parses of parts and wholes by the real parser."),
 "C27": ("metamorphic monitor: entry points", "Relates the real entry points to each other."),
 "C28": ("Miri race/UB detection, thread stress and history replay", "Interpreted schedules (Miri, weak-memory emulation, preemption) for data races and undefined behaviour of concurrent first use; native stress with up to 16 threads; repeated and reordered calls; fresh processes with other hash seeds."),
 "C29": ("process monitor: exit status and output streams", "The program is built from the working tree and run on real files; the expected output comes from the library's own answer for the text."),
 "C30": ("process monitor: REPL sessions over pipes", "The program is built from the working tree and fed through pipes, in bulk and as a dialogue; the expected output comes from one library session."),
 "C31": ("differential monitor: WebAssembly under node against native", "The module is built from the working tree and executed in node; tools/glue.js stands in for the glue wasm-bindgen-cli would generate (not installed here)."),
}
checks = [{"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough", "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public API, and the crate under test is instrumented by a rustc wrapper (tools/rustc-wrap.sh). Replay a violation with: bash replay.sh <ID> <replay file>."}
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1)
open(out, "a").write("\n")
