#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a module in tools/props, the others are
not_applicable (with the reason)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ model checked with TLC; behaviours of the model and random scripts replayed into the code, recorded traces validated against the specification"
BASE = ("The specification is checked exhaustively within its constants; the code is bound to it by validating recorded "
        "executions (complete within the replayed behaviours, sampled beyond). Trusted: TLC, the harness that logs calls and results")
NOTES = {
    "P01": "Small graphs and all frame sequences exhaustively in the model; thousands of enumerated and random graph/frame pairs through Decoder, hypothesis compared after every frame.",
    "P02": "As P01 for the product with a backoff LM, incl. words unknown to the LM.",
    "P03": "Two-sided bound (optimum, best path inside the beam) proved for the pruned search on small models for every processing order; checked on random graphs with costs around the beam and on fans of 300..40000 tokens.",
    "P04": "Decoder with collector compared with a search that never collects, across many collections and re-initialisations.",
    "P05": "The allocation/collection algorithm refines the abstract pool for all histories up to a depth; all histories and long random ones replayed into Pool/GCPool with block sizes 1..4096.",
    "P06": "The probing/growth algorithm refines the finite map and terminates, for all histories up to a depth; replay with four key types.",
    "P07": "All LMs over 3 states and 2 words with every query history of the cache in the model; enumerated and random LM files through Fst, LmFst, DeltaLmFst, CachedFst.",
    "P08": "All chunkings of short streams in the model, replayed and random streams through WaveReader.",
    "P09": "Byte-level acceptance of headers; every truncation, every single-byte change from a value set, random field combinations.",
    "P10": "Every chunking of short streams refines the framing specification at scaled constants; replay and random chunkings through Fbank at the real constants, noise and silence marking which samples a frame depends on.",
    "P11": "All (T, left, right, chunk) within bounds in the model; the same and random ones through AcousticModel with a network that makes every row identify its window.",
    "P12": "Layer semantics over exact rationals/integers; random stacks of layers, shapes and quantisation-exact values, transcendental layers bracketed.",
    "P13": "Storage cells, views and strides as explicit state; histories of resize/copy/range/swap/move on Matrix, SubMatrix, Vector, SubVector.",
    "P14": "Window sums with the documented constants; long random feature streams, incl. utterances over 600 frames and the repeated use of one object.",
    "P15": "Line grammar of configurations; enumerated short texts and random files, every getter.",
    "P16": "Line grammar of texts and symbol tables; enumerated short texts and random files with lines beyond every buffer size.",
    "P17": "Byte grammar of vector, matrix, FST and network files; every truncation, field changes, implausible counts; the reader's position after each section.",
    "P18": "The pipeline converter-framing-batching-search refines the utterance specification for all chunkings at scaled constants; tiny complete models driven through the C API, partial and final results checked against the specification.",
    "P19": "A specification of the model directory (ModelDir) decides for every combination of missing, truncated and altered files; model of the loader; all argument errors.",
    "P20": "All interleavings of two utterances' steps in the model with private and (negative control) shared scratch state; interleaved and multi-threaded scripts through the C API under ASan and TSan.",
    "P21": "The heap as a ledger: bytes live after every call are a function of what is live in the specification; failed initialisations included.",
    "P22": "All lists up to a bound in the model; the real executable on generated lists, WAV files and argument errors.",
    "P23": "The meaning of each output file as a function of the input text (decimal texts against float bits with big naturals); the tools are run on generated texts, their outputs read by the specification and by the engine's own readers, converted networks run by the engine against the Kaldi network; Splice+Narrow = Kaldi proved for all small networks.",
    "P25": "Declarative meaning of every helper; the loops of the implementation refine it for every short text (Format that rescans as negative control); enumerated and random texts, configurations with every kind of refusal, files read as bytes, result objects.",
    "P24": "Integer specification of the transform (tables of cosines checked against their identities), of the features and of the quantiser; every basis vector of every size 4..1024, dense vectors, many kinds of windows and matrices.",
    "P26": "The meaning of the output text per line; a machine that reads the text once agrees on every short text, with the laws of the conversion (a converted text stays as it is, nothing lost or reordered); enumerated and random texts through the script, twice.",
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "tools/props", pid.lower() + ".py")):
            checks.append({"property": pid, "quick_cmd": "python3 tools/check.py " + pid,
                           "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": TLA, "level": "model_checking",
                           "level_note": (NOTES.get(pid, "") + " " + BASE).strip()})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "No check built yet.")})
    m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('evidence', exist_ok=True)\"",
         "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds its harness from /repo's working tree; no hooks in /repo are needed."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
