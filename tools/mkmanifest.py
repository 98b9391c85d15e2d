import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "monitored runs of the real program on generated inputs, judged by an independent reference checker (own Buchberger engine, FLINT/Arb)"
T = {
 "C01": (REF, "each run's basis is recomputed exactly by the reference engine and compared term by term"),
 "C02": (REF, "elimination-order basis recomputed exactly; over Q modulo random 60-bit primes"),
 "C03": (REF, "basis over Q checked modulo 60-bit primes unknown to msolve"),
 "C04": (REF, "leading ideal recomputed"),
 "C05": (REF, "dimension class recomputed"),
 "C06": (REF, "parametrization substituted into the system, number of distinct solutions recomputed"),
 "C07": (REF, "as C06 modulo 60-bit primes"),
 "C08": (REF, "boxes compared with Arb enclosures of the roots of the verified parametrization"),
 "C09": (REF, "normal forms recomputed"),
 "C10": (REF, "soundness for every run, completeness on a catalogue of proper saturations; incompleteness elsewhere is a recorded finding"),
 "C11": ("metamorphic monitoring: outputs of the same run under different performance options compared", "byte comparison on larger systems than the reference engine decides"),
 "C12": ("AddressSanitizer, UBSan, poisoned allocator over all modes", "memory errors and UB are observed only on executed paths"),
 "C13": ("mutated and hostile input files under AddressSanitizer/UBSan", "memory errors are observed only on executed paths"),
 "C14": ("ThreadSanitizer with an instrumented OpenMP runtime", "happens-before race detection on executed schedules"),
 "C15": ("schedule-controlling OpenMP runtime with answer comparison", "chunk interleavings are sampled: random, delayed, serialised, starved"),
 "C16": ("metamorphic monitoring: outputs for re-spelled inputs compared", "byte comparison"),
 "C17": ("call-history harness over the library under AddressSanitizer with comparison to the program", "sampled histories"),
 "C18": (REF, "boxes compared with FLINT's certified real root count and Arb enclosures"),
 "C19": ("metamorphic monitoring: pinned clock swept, outputs compared", "seeds are sampled; prime-poor systems make bad primes likely"),
 "C20": ("differential monitoring of scalar, AVX2 and native builds", "byte comparison"),
 "C21": ("monitor of exit codes, standard output and output file contents", "byte comparison and fault injection on the file system inside a scratch directory"),
}
NA = json.load(open(os.path.join(V, "tools", "na.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p + ".py")) and p not in NA:
        checks.append(dict(property=p, quick_cmd="python3 checks/%s.py" % p, thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="exploration", level_note=T[p][1]))
    else: na.append(dict(property=p, reason=NA.get(p, "the check for this property is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py oracle plain", checks=checks, not_applicable=na,
               notes="Every check builds the variants of /repo it needs (keyed by a hash of the tree) under /verif/.cache. No hooks in /repo: instrumentation is by link-time wrapping and a replacement OpenMP runtime in /verif/rt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
