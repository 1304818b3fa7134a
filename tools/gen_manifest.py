#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
T = dict(
 C01="structural invariant monitor on the DNM (offset table, back map, node map) of generated documents",
 C02="reference flattening of the tree compared with every built plaintext",
 C03="reference back map compared entry by entry with every built back map",
 C04="reference range arithmetic on characters, observed on generated multi-byte texts",
 C05="round-trip monitor with an independent XPointer resolver over generated documents and range pairs",
 C06="reference standard normalization compared with observed plaintexts",
 C07="trace invariant (tiling, order, bounds, coverage) over returned sentence ranges",
 C08="reference break rules compared with observed sentence breaks",
 C09="reference word scanner compared with observed word ranges",
 C10="reference partition compared with observed tokens",
 C11="metamorphic monitor: canonical forms before and after artefact and content edits, plus a reference form",
 C12="concurrent histories of hash calls checked against an independent MD5",
 C13="reference wrapping/rebuilding compared with observed DNMs",
 C14="reference lexeme extraction compared with observed results",
 C15="reference counting by distance to anchors compared with observed tables",
 C16="operation histories checked against a sequential map/dictionary model",
 C17="exactly-once and conservation monitor over event logs of parallel walks with injected delays and faults",
 C18="reference selection on the tree compared with observed selections",
 C19="event log of sequential iteration compared with files on disk and with the parallel interface, parser analyses replayed",
 C20="reference grammar of the pattern language decides each file; panics and verdicts observed",
 C21="reference interpreter of rules compared with observed matches",
 C22="reference interpreter of math rules compared with observed matches",
 C23="reference marker trees compared with observed marker trees and lists",
 C24="fixpoint/termination/word-conservation monitor plus round trip of all structural environments",
 C25="reference class mapping compared with observed environments",
 C26="reference word classification compared with observed normalizations",
 C27="exactly-once/order/conservation monitor over the written model under scheduling stress",
 C28="reference output compared with both interfaces, process survival observed under hostile paths",
 C29="membership monitor over word classes and concurrent/repeated loads",
 C30="recording detector stand-in: detector inputs logged and verdicts injected, decisions checked",
 C31="resource listing compared with generated directory trees; recorded plotting command stream checked",
 C32="reference helper semantics compared with observed load/match outcomes",
 C34="panic, crash, hang and agreement monitor over every operation on mutated, broken, real and oversized files",
 C35="random operation histories checked against fresh documents, repetition and document snapshots",
 C36="recorded answers of every document under random corpus settings compared with reference flattening and tokenization",
 C37="the corpus tools run as processes over generated corpora; their reports compared with reference reports",
 C33="AddressSanitizer+LeakSanitizer, ThreadSanitizer and valgrind memcheck over the workloads of all properties; concurrent-versus-sequential results",
)
NOTE = ("Held on the executions of this run only (case counts, distinct inputs and observed events are in the evidence file). "
        "Trusts libxml2, the libxml crate, the stand-ins for crates that cannot be fetched offline (unidecode, rustmorpha, jwalk, whatlang, rust-senna, rust-crypto) and the reference model in harness/monitor.")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    note = NOTE
    if i == "C33":
        note = ("No sanitizer report on the executions of this run. libxml2 is instrumented by memcheck only; unsafe code of replaced crates is not observed; "
                "races are found only in interleavings the stress runs reached.")
    if i == "C05":
        note += " One known finding (ambiguous-root-child) is listed in known_findings.json."
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                       technique=T[i], level="exploration", level_note=note))
m = dict(version=1, setup_cmd="bash build.sh plain tools",
  checks=checks, not_applicable=[],
  notes="No hooks in /repo: everything is observed through public interfaces, the files written, and stand-in dependencies. Repairs of genuine defects are the 'fix:' commits listed in known_findings.json.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
