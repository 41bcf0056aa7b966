#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prog = ("Random type definitions are compiled with the derives and executed; sound for what is explored, "
        "no claim beyond the generated definitions and values. Trusts rustc 1.87 and the reference mapping in /verif. ")
T = {
 "C01": ("property-based testing: generated type definitions, differential against a generated reference mapping", prog),
 "C02": ("property-based testing: generated definitions with every failing call position, differential against a reference mapping", prog),
 "C03": ("property-based testing: generated multi-parameter definitions, reference mapping, metamorphic commutation, availability probes", prog),
 "C04": ("property-based testing: random values of every library impl, differential against element-wise reference with FromIterator", "All impls are exercised on hundreds of thousands of random values up to 1000 elements; exploration only."),
 "C05": ("property-based testing: random values and failing positions for every library impl, differential", "All impls are exercised with failures at first, last and random positions; exploration only."),
 "C06": ("property-based testing with a drop ledger, AddressSanitizer and Miri as oracles over lengths, layouts and exits", "UB is judged by Miri (small lengths) and ASan (larger lengths); exploration only."),
 "C07": ("property-based testing with a drop ledger over injected failures and panics", prog),
 "C08": ("property-based testing: generated definitions with adversarial names and shadowing scopes, compile and compare with reference", prog),
 "C09": ("property-based testing: generated bound sets, compile-time availability probes against a predicted availability", prog),
 "C10": ("property-based testing: generated params options, availability probes, behaviour and compile results", prog),
 "C11": ("property-based testing: generated crate paths, compile, run and audit of the expansion", prog),
 "C12": ("property-based testing: generated faulty definitions, diagnostics against a model of the documented errors", prog),
 "C13": ("fuzzing: grammar-generated items for the macros, crash oracle, parse oracle and repeated-expansion comparison", "Panics and nondeterminism are searched for in generated items only."),
 "C14": ("property-based testing: generated definitions with and without Drop, accept/reject oracle", prog),
 "C15": ("property-based testing: every feature set, exhaustive availability table plus generated no_std programs", "The feature sets and impl table are enumerated; programs are sampled."),
 "C16": ("property-based testing: metamorphic comparison of warnings with and without the derives under deny", prog),
 "C17": ("property-based testing: differential between editions on generated definitions", prog),
 "C18": ("property-based testing: generated attempts to forge markers, accept/reject oracle", "Attempts are sampled from a grammar of impls and constructors."),
 "C19": ("property-based testing: functor laws on random values of generated and library types", prog),
 "C20": ("property-based testing: metamorphic comparison of macro_rules-generated with hand-written definitions", prog),
 "C22": ("property-based testing: generated definitions called without annotations and in generic code, differential against annotated calls", prog),
 "C21": ("property-based testing: generated definitions over hand-written recording functors, call trace against a model", prog),
}
NA = {}
claimed = os.environ.get("CLAIM", "").split() or sorted(T)
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks: all checks use the public interface of the crate built from /repo. Known and fixed defects: known_findings.txt.",
}
for p in sorted(props):
    if p in claimed:
        tech, note = T[p]
        m["checks"].append({
            "property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "exploration", "level_note": note.strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
