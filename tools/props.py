#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing: tools/props.py"""
import json, pathlib
ROOT = pathlib.Path(__file__).parent.parent
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, check=None, note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  check=check, note=note, na=na, technique=technique))

prop("C02", "Emitted code re-reads as the same program",
  "For every program the parser accepts, every emitter style produces text that is valid, denotes the same program as the original text (same syntax tree up to redundant parentheses, quote style and empty statements), and emits unchanged when parsed again. This holds for JavaScript, TypeScript and JSX sources.",
  ["inputs"], "every program of each grammar family up to the size bound, in every emit style",
  "Tests round-trip a few hundred hand-picked snippets; precedence, ASI, escape and restricted-production defects live in pairs and triples of constructs.",
  ["emit-js/src/expr_js.rs", "emit-js/src/stmt.rs", "emit-js/src/precedence.rs", "emit-js/src/escape.rs", "parse-js/src/parse/expr/mod.rs", "parse-js/src/parse/class_or_object.rs", "parse-js/src/parse/type_expr.rs"],
  [("precedence and restricted-position parenthesisation", "emit-js/src/precedence.rs"), ("expression parser", "parse-js/src/parse/expr/mod.rs")],
  ["parse_js::parse_with_options", "emit_js::emit_top_level_diagnostic"],
  check="exhaustive enumeration of grammar-bounded programs on the real parser and emitter, tree oracle: TypeScript and V8",
  note="Every program of 17 grammar families up to a size bound (2.4M programs, 5.5M parse/emit/reparse traces in the quick tier) is run through the real parser and emitter in four styles; the emitted text is compared with the source by the trees TypeScript builds for both, and V8 must accept it. Trusts TypeScript 5.9 and V8 as readers of the language; says nothing about larger programs.")

prop("C06", "Minification preserves behaviour",
  "For every valid program, the minifier either reports a diagnostic or produces a program that, when run, performs the same observable actions in the same order and completes in the same way: same logged values, return or thrown value, exported bindings, globals. Minifying the result again does the same. Valid programs are not refused.",
  ["inputs"], "every program of sixteen families of statements, expressions, scopes, classes, generators, modules and scripts up to the size bound, for each dialect and applied once and twice",
  "Tests compare the minified text of chosen snippets; an unsound rename, fold, inlining or dead-code removal needs a particular combination of scopes, side effects and control flow.",
  ["minify-js/src/lib.rs", "minify-js/src/rename/mod.rs", "minify-js/src/opt/const_fold.rs", "minify-js/src/opt/dce.rs", "minify-js/src/opt/single_use_inline.rs", "minify-js/src/opt/sem_rewrite.rs", "hir-js/src/lower.rs", "emit-js/src/hir.rs"],
  [("renaming", "minify-js/src/rename/mod.rs"), ("optimisation passes", "minify-js/src/opt"), ("lowering", "hir-js/src/lower.rs")],
  ["minify_js::minify_with_options"],
  check="exhaustive enumeration of small programs on the real minifier, behaviour oracle: V8 running original and minified text",
  note="About 160k programs (quick tier) of sixteen families, each exhaustive up to its size, minified by the real code in two dialects and twice, then original and result executed in V8 with logged side effects, calls that observe order, and a step limit; the traces must be equal. Trusts V8; runaway programs are skipped; larger programs are not covered.")

prop("C11", "HIR emission keeps the program",
  "For every program without TypeScript-only syntax that lowers to HIR, emitting it from HIR (the path the minifier and other back ends use) in minified or canonical form produces text that denotes the same program as the source, or returns an error; it never produces a different or invalid program.",
  ["inputs"], "every program of each script and module grammar family up to the size bound, in both styles",
  "HIR flattens parentheses, patterns, chains and literal spellings; each has to be reconstructed by the emitter from context, and a wrong reconstruction needs a particular nesting.",
  ["hir-js/src/lower.rs", "emit-js/src/hir.rs", "hir-js/src/hir.rs"],
  [("lowering", "hir-js/src/lower.rs"), ("emission from HIR", "emit-js/src/hir.rs")],
  ["hir_js::lower_file", "emit_js::emit_hir_file_diagnostic"],
  check="exhaustive enumeration of grammar-bounded programs on the real parser, lowering and HIR emitter, tree oracle: TypeScript and V8",
  note="All script and module families of C02 are lowered to HIR and emitted in two styles; the trees TypeScript builds for source and output must agree and V8 must accept the output. Constructs whose HIR form is a recorded finding are excluded by a predicate on the source. Larger programs are not covered.")

prop("C13", "Optimised and decompiled programs behave like the source",
  "For every program the optimiser accepts, compiling it to its intermediate form with all optimisation passes and turning the result back into JavaScript yields, under every decompilation style, a program that performs the same calls, stores and observable reads in the same order with the same values and completes the same way; constructs it cannot represent are refused with a diagnostic, never dropped or altered. (Reads of variables and properties and coercions of objects to primitives are taken to have no effects of their own, and standard built-ins not to be replaced.)",
  ["inputs"], "every program of four families (control flow, expressions, objects and destructuring, global scripts) up to the size bound, in four decompilation styles",
  "Tests check a few dozen snippets for substrings of the output; a wrong merge, stale read or inverted guard needs a particular combination of control flow, assignment and evaluation order.",
  ["optimize-js/src/il/s2i/expr.rs", "optimize-js/src/il/s2i/stmt.rs", "optimize-js/src/opt/optpass_dvn.rs", "optimize-js/src/opt/optpass_impossible_branches.rs", "optimize-js/src/ssa/ssa_deconstruct.rs", "optimize-js/src/decompile/mod.rs", "optimize-js/src/decompile/structurer.rs", "optimize-js/src/decompile/il.rs"],
  [("source to IL", "optimize-js/src/il/s2i"), ("passes", "optimize-js/src/opt"), ("structuring and emission", "optimize-js/src/decompile")],
  ["optimize_js::compile_source", "optimize_js::decompile::program_to_js"],
  check="exhaustive enumeration of small programs on the real compiler, passes and decompiler, behaviour oracle: V8 running source and output",
  note="About 125k programs (quick tier) of four families, each exhaustive up to its size, compiled, optimised and decompiled in four styles by the real code; source and every output run in V8 with logged calls, and the traces must be equal. Trusts V8. Functions, exceptions and classes are refused by the decompiler and so not covered; endless programs are skipped.")

prop("C14", "Control-flow analyses match their definitions",
  "For every control-flow graph, the optimiser's dominators, dominance frontiers, post-dominators, natural loops and loop nesting, conditional regions, liveness, definitions, interference and every dataflow solution equal what their definitions in terms of the paths of the graph say, and register allocation never gives two interfering variables one register.",
  ["inputs"], "every control-flow graph up to the bound on blocks (every successor assignment), with every choice of block contents from a menu for the variable-sensitive analyses",
  "Tests check a handful of textbook graphs; irreducible loops, self-loops, multiple exits, unreachable and exitless regions are where such algorithms fail.",
  ["optimize-js/src/dom/mod.rs", "optimize-js/src/analysis/dataflow.rs", "optimize-js/src/analysis/liveness.rs", "optimize-js/src/analysis/interference.rs", "optimize-js/src/analysis/registers.rs", "optimize-js/src/analysis/find_loops.rs", "optimize-js/src/analysis/loop_info.rs", "optimize-js/src/analysis/find_conds.rs", "optimize-js/src/graph/mod.rs"],
  [("dominator tree", "optimize-js/src/dom/mod.rs"), ("dataflow solver", "optimize-js/src/analysis/dataflow.rs")],
  ["optimize_js::dom::Dom", "optimize_js::analysis"],
  check="exhaustive enumeration of all bounded control-flow graphs on the real analyses, oracle: definitions evaluated by explicit path search",
  note="Every graph of up to 4 blocks with contents and up to 6 blocks without (2M states in the quick tier) is given to the real analyses; each answer is compared with the definition computed by brute-force reachability with nodes or edges removed, or with a naive fixpoint. Nothing is claimed beyond the bound, though defects of these algorithms show on small graphs.")

prop("C15", "IL transformations preserve execution",
  "For every IL function, SSA construction, every optimisation pass in any order and any number of times, and SSA deconstruction leave the observable execution unchanged: the same calls with the same arguments in the same order for every behaviour of the environment, no variable read before it is written that was not before, no panic, and SSA form stays well formed between passes.",
  ["inputs", "op_sequences"], "every control-flow graph up to the bound, every choice of block contents from a menu with calls, copies, arithmetic and constants, every sequence of passes up to the depth bound, every boolean environment",
  "Tests run the fixed pipeline on hand-written functions; lost copies, swap problems and stale rewrites need particular phi webs and pass orders.",
  ["optimize-js/src/ssa/ssa_insert_phis.rs", "optimize-js/src/ssa/ssa_rename.rs", "optimize-js/src/ssa/ssa_deconstruct.rs", "optimize-js/src/opt/optpass_dvn.rs", "optimize-js/src/opt/optpass_trivial_dce.rs", "optimize-js/src/opt/optpass_redundant_assigns.rs", "optimize-js/src/opt/optpass_cfg_prune.rs", "optimize-js/src/opt/optpass_impossible_branches.rs"],
  [("SSA", "optimize-js/src/ssa"), ("passes", "optimize-js/src/opt")],
  ["optimize_js::ssa", "optimize_js::opt"],
  check="explicit-state exploration: every bounded IL program, every pass sequence applied to the real code (breadth-first over reached IL states), oracle: an IL interpreter run under every environment",
  note="All programs over graphs of up to 4 blocks with a menu of block bodies; from each, the states reachable by applying the real passes in any order are explored breadth first with duplicate detection, each is deconstructed, and all are executed by an independent IL interpreter under every boolean oracle of length 3 or 4. The interpreter's small-step rules are trusted.")

prop("C35", "Compile-time evaluation agrees with JavaScript",
  "Whenever the optimiser evaluates an operator, coercion, comparison, standard constant or call of a standard function at compile time, the result is the value JavaScript computes; it never panics, and never evaluates what would throw.",
  ["inputs"], "every operator and foldable function on every pair of about 120 boundary constants of every primitive type",
  "Tests sample a few operators; the defects are in corners of type pairs: BigInt against Number, signed zero, number-to-string, UTF-16 order, string-to-number syntax.",
  ["optimize-js/src/eval/consteval.rs"],
  [("constant evaluation", "optimize-js/src/eval/consteval.rs")],
  ["optimize_js::eval::consteval"],
  check="exhaustive enumeration of operator and operand combinations on the real evaluator, oracle: V8",
  note="All 21 binary operators on all pairs of 125 constants, all unary operators, truthiness, 42 standard functions with 0-2 arguments and 16 constants (433k evaluations in the quick tier) compared bit for bit with V8; transcendental functions and ** to four units in the last place.")

def main():
    with (ROOT/'properties.jsonl').open('w') as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"]}}, ensure_ascii=False)+"\n")
    checks, na = [], []
    for p in P:
        if p["check"]:
            checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
              "evidence_file": f"evidence/{p['id']}.json", "technique": p["check"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
      "notes": "Every check runs the real crates from /repo's working tree (path dependencies); the model checker proper is mc/core. No hooks are needed in /repo."}
    (ROOT/'MANIFEST.json').write_text(json.dumps(m, indent=1, ensure_ascii=False)+"\n")
main()
