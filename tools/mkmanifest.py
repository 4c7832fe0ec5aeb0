"""Writes /verif/MANIFEST.json."""
import json, sys
sys.path.insert(0, "/verif")
import check

PBT = "property-based testing (proptest generators, shrinking)"
T = {
    "C01": ("model-based generation and round trip: " + PBT, "sheets up to three at-rules deep with random layouts, compared with the generating model; nothing outside the generator's dialect"),
    "C02": ("grammar-aware fuzzing with an invariant oracle: " + PBT, "random tokens, edited and truncated sheets; nesting up to about 120 levels; faithfulness judged by an independent tokeniser"),
    "C03": ("differential against an independent scoping model: " + PBT, "the CSS is read back by an independent reader, which is trusted"),
    "C04": ("differential against an independent model: " + PBT, "the CSS is read back by an independent reader, which is trusted"),
    "C05": ("differential against an independent model: " + PBT, "the CSS is read back by an independent reader, which is trusted"),
    "C06": ("round trip and idempotence over generated sheets and texts: " + PBT, "sheets of the model and accepted random texts"),
    "C07": ("stateful model-based testing of registry histories: " + PBT, "histories of up to 40 operations over up to 6 sheets"),
    "C08": ("stateful generation over threads, uniqueness invariant, both id sources: " + PBT, "all ids of a run are compared; random ids are unique with high probability only"),
    "C09": ("stateful model-based testing, markup parsed by an independent HTML reader: " + PBT, "the HTML reader (raw text elements) is trusted"),
    "C10": ("stateful round trip over serialisation formats: " + PBT, "JSON, CBOR and bincode"),
    "C11": ("generated component trees rendered on the server against a model: " + PBT, "trees of a fixed family of components; LocalServerRenderer of yew is trusted"),
    "C12": ("generated programs, compiled and compared with the model: random program generation with recompiling shrinker", "hundreds of invocations per run, compiled by the installed rustc"),
    "C13": ("generated programs, compiled and compared with the model: random program generation with recompiling shrinker", "hundreds of invocations per run, compiled by the installed rustc"),
    "C14": ("generated programs, compiled and compared with the model: random program generation with recompiling shrinker", "hundreds of invocations per run, compiled by the installed rustc"),
    "C15": ("fault injection into generated macro invocations, accepted or rejected by rustc", "single faults of the listed kinds; diagnostics are mapped to cases by span"),
    "C16": ("stateful model-based testing against an in-memory DOM: " + PBT, "web-sys is replaced by an in-memory DOM; the wasm32 code paths are compiled for the host"),
    "C17": ("algebraic laws (equality, hashing) and round trips over generated pairs: " + PBT, "two hashers, three formats"),
    "C18": ("histories and threads of parses against independent expectations: " + PBT, "schedules are those the operating system gives"),
    "C19": ("differential between sources and constructors: " + PBT, "ten kinds of sources, thirteen constructor calls"),
    "C20": ("fault injection (corrupting fragments) against an independent tokeniser: " + PBT, "debug builds with debug_parser"),
    "C21": ("generated component trees rendered on the server against a model: " + PBT, "server rendering only"),
    "C22": ("stateful model-based testing against a fake browser: " + PBT, "web-sys is replaced by a fake"),
    "C24": ("stateful model-based testing of generated component trees against an in-memory DOM: " + PBT, "web-sys is replaced by an in-memory DOM and a vendored yew with marked edits; a fixed family of components"),
    "C23": ("stateful model-based testing with a counting allocator: " + PBT, "bytes are counted per thread"),
}
NA = json.load(open("/verif/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p not in check.PROGRAMS:
        assert p in NA, p
        continue
    t, note = T[p]
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": t,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in check.PROGRAMS],
    "notes": "Replay a violation with VERIF_REPLAY=<path> python3 check.py <ID>.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=2)
open("/verif/MANIFEST.json", "a").write("\n")
