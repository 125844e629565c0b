#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitor: reference-model oracle over generated executions of the real code"
CHECKS = {
 "C01": (REF, "exploration"), "C02": (REF, "exploration"), "C03": (REF, "exploration"), "C04": (REF, "exploration"),
 "C05": (REF, "exploration"), "C06": ("runtime monitor: online order checker over streamed matches", "exploration"),
 "C07": ("runtime monitor: differential oracle, same content with and without prefix bins", "exploration"),
 "C08": (REF, "exploration"), "C09": ("runtime monitor: online order checker over streamed matches", "exploration"),
 "C10": (REF, "exploration"), "C11": (REF, "exploration"),
 "C12": ("runtime monitor: round trip through hooked writer and readers", "exploration"),
 "C13": ("runtime monitor: soundness checker over returned contexts", "exploration"),
 "C14": ("runtime monitor: invariants of returned rankings", "exploration"),
 "C15": (REF, "exploration"), "C16": ("runtime monitor: brute-force reference over generated executions", "exploration"),
 "C17": ("runtime monitor: brute-force reference over generated executions", "exploration"), "C18": (REF, "exploration"),
 "C19": ("runtime monitor: answers compared across thread counts, concurrency and injected delays", "exploration"),
 "C20": ("address sanitizer and lifetime-stress monitors", "exploration"),
 "C21": ("fault injection at every storage call with outcome monitor", "fault_enumeration"),
 "C22": ("runtime monitor: differential oracle, the real bindings loaded in node against direct calls", "exploration"),
 "C24": ("runtime monitor: round-trip oracle over generated stores, questions and answers", "exploration"),
 "C23": (REF, "exploration"), "C25": ("runtime monitor: quota checker over the recorded log of storage reads", "exploration"),
 "C26": ("runtime monitor: differential oracle over ways of building", "exploration"),
 "C27": ("runtime monitor: counting allocator and counters of open databases over repeated work", "exploration"),
 "C28": ("runtime monitor: differential oracle, the same question with other things around it", "exploration"),
 "C29": ("runtime monitor: independent decoder and encoder of stores on disk", "exploration"),
 "C30": (REF, "exploration"), "C31": ("runtime monitor: counting source and reference grouping over random sequences", "exploration"),
 "C32": ("runtime monitor: counters of open databases and bytes in use inside the addon, over repeated work", "exploration"),
}
NOTE = ("Held on the executions generated from VERIF_SEED (counts in the evidence file); nothing is claimed beyond them. "
        "Trusts the in-memory stand-ins for rocksdb, morton, min-max-heap and static-bushes under vendor/ (the originals are git dependencies this sandbox lacks) and the reference model in harness/src.")
EXTRA = {
 "C19": " Interleavings are those that thread counts 1, 3 and 8, six concurrent callers and random delays in reads produce.",
 "C21": " Every single write of each generated build is failed in turn; failing opens and reads are sampled.",
 "C22": " neon, neon-serde, owning_ref and fuzzy-phrase are replaced by stand-ins under bindings/standins, which call node's N-API; the code of native/src and index.js is the real one.",
 "C27": " Memory is counted by the allocator of the harness and databases, values and iterators by the stand-in for rocksdb; the memory real rocksdb would take is not part of it.",
 "C32": " Databases, values and iterators are counted by the stand-in for rocksdb and bytes by an allocator inside the stand-in for neon; memory of node itself is not counted.",
 "C12": " Reaches the private format module through cfg(carmen_verif).",
}
NA = []
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "cfg(carmen_verif)", "enable": "RUSTFLAGS='--cfg carmen_verif' (set by check.sh)",
           "source_commits": ["1ad5bfd"]},
 "checks": [{"property": c, "quick_cmd": "./check.sh " + c, "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + c, "technique": t, "level": l,
             "level_note": NOTE + EXTRA.get(c, "")} for c, (t, l) in CHECKS.items()],
 "not_applicable": NA,
 "notes": "VERIF_TIER selects the depth; see DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
