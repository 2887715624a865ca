"""Writes MANIFEST.json: claims every property that has a check module."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = ("Property-based testing with the generators in vk/: holds on every generated case of the run "
       "(counts and samples in the evidence), no proof beyond that. ")
T = {
 "C01": ("random value graphs, round-trip against a reference mapping", GEN + "Trusts the harness's own description of values (vk/graph.py, vk/gens.py)."),
 "C02": ("random object graphs with sharing and cycles, round-trip with graph isomorphism oracle; V8 as differential", GEN + "Trusts vk/graph.py and, for the V8 cases, Node.js."),
 "C03": ("random value graphs, differential against a real V8 (Node.js deserializer)", GEN + "Trusts the installed Node.js 22 (V8 12.4); Float16Array is compared only if that V8 has it."),
 "C04": ("random JavaScript values built in Node.js, differential decode of V8's own output", GEN + "Trusts the installed Node.js 22 (V8 12.4)."),
 "C05": ("structure-aware and grammar fuzzing of the decoder with error, termination, memory and crash oracles", GEN + "Work is bounded by 60 s CPU per case and memory by a limit linear in the input."),
 "C06": ("every prefix of generated streams (fault enumeration by truncation) plus trailing bytes and back-to-back values", GEN + "Every prefix length of each generated stream is tried."),
 "C07": ("random graphs with planted faults; determinism, purity and error-kind oracles", GEN + "Purity is judged by the harness's own snapshot of the input graph."),
 "C08": ("random values x feature sets/versions, output parsed by an independent reader that lists the constructs used", GEN + "Trusts the independent reader vk/refcodec.py for which constructs a stream uses."),
 "C09": ("model-based operation histories against a reference property map and real JavaScript objects", GEN + "Trusts the model in the check and Node.js."),
 "C10": ("model-based operation histories on both array storages against a list with holes", GEN + "Trusts the list model in the check."),
 "C11": ("random keys, differential against JavaScript's ToString and property identity", GEN + "Trusts Node.js for number to string conversion."),
 "C12": ("model-based operation histories against a same-value-zero model and real JavaScript Map/Set", GEN + "Trusts the model in the check."),
 "C13": ("random graph pairs (copies, mutants, cyclic variants) against a reference bisimulation; threads and raising members", GEN + "Thread schedules are those the interpreter happens to produce, forced to switch often."),
 "C14": ("model-based histories of buffers and views against an independent byte model and Node.js typed arrays", GEN + "Trusts the model in the check and Node.js."),
 "C15": ("random values printed and evaluated back; random histories of printing scopes against a stack model", GEN + "Evaluation uses Python's eval in a namespace of the public names."),
 "C16": ("random streams x options, metamorphic comparison with the default configuration", GEN + "Compares the library with itself under different options and with an expected graph."),
 "C17": ("random regular expressions and all flag sets, round-trip, differential against Node.js's RegExp", GEN + "Trusts Node.js for which sources and flags are valid and what they match."),
 "C18": ("random errors with every field combination, round-trip and differential against Node.js", GEN + "Trusts Node.js and the independent writer."),
 "C19": ("random host-object streams from Node.js and from the library, differential both ways", GEN + "Trusts the installed Node.js 22."),
 "C20": ("random stream elements and alternative spellings by an independent writer, differential against an independent reader", GEN + "Trusts vk/refcodec.py."),
 "C21": ("random instants x zones, arithmetic oracle in integer milliseconds, differential against Node.js", GEN + "Trusts Python's zoneinfo/datetime arithmetic."),
 "C22": ("random histories of calls (failing, nested, concurrent) compared with each call alone and in a pristine process", GEN + "Thread schedules are generated: threads take turns at the steps of each call in a drawn order."),
 "C23": ("random collections of values compared with a reference definition of equal contents; dict and set lookups; change of the buffers in between", GEN + "Float16 items depend on the Python version."),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "vk", "checks", i.lower() + ".py")):
            tech, note = T[i]
            checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                           "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
        else:
            missing.append({"property": i, "reason": "its check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
         "notes": "Checks import /repo/src directly, so they always see the working tree. VK_JOBS limits the worker processes. No hooks in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
