"""Writes MANIFEST.json, for all properties that have a check."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ("Random histories against the real server code over a simulated "
       "transport and clock; every message the server reads or writes is "
       "judged by an independent reference model. Trusts the model and the "
       "simulated transport; explores, does not prove.")
GEN = ("Random and mutated inputs against an independently written oracle. "
       "Explores, does not prove.")
HIST = "model-based stateful property testing of generated histories"
T = {
    "C07": ("differential testing against a reference evaluator", GEN),
    "C08": ("grammar-based generation and mutation, reference parser, "
            "round-trip", GEN),
    "C09": ("generated and mutated messages against a reference codec, "
            "round-trip", GEN),
    "C14": (HIST + ", and leak search over repeated histories", SIM),
    "C15": ("model-based stateful testing with re-entrant handlers",
            "Generated operation sequences on a virtual clock against a "
            "reference timer model. Explores, does not prove."),
    "C16": ("model-based stateful testing with a simulated poll mechanism",
            "Generated scripts, executed from within handlers too, on a "
            "virtual clock with simulated descriptors and real signals, "
            "against rules on which calls are due. Explores, does not "
            "prove."),
    "C19": ("generated configurations against a reference interpretation",
            GEN),
    "C20": ("model-based testing of the client against a scripted server",
            "Generated operations, server message sequences and transport "
            "behaviour against a model of what has to be delivered. "
            "Explores, does not prove."),
    "C21": ("generated domain files against a reference reader", GEN),
    "C23": ("metamorphic testing: interleaved histories against their "
            "projections, judged by a reference model", SIM),
    "C24": ("generated command lines against a reference interpretation",
            "The program's own command interpreter is driven with generated "
            "command lines over a recording client. Explores, does not "
            "prove."),
    "C25": ("generated command lines and configurations against a reference "
            "interpretation, and real process runs",
            "Servers, log handlers and event loop are recording stand-ins "
            "except in the process runs. Explores, does not prove."),
    "C26": ("generated exchanges through the binding to a fake transport "
            "library",
            "The binding is loaded on top of a C library with the interface "
            "of the real one, which verifies and injects. Trusts that "
            "library's reading of the interface. Explores, does not prove."),
    "C27": ("metamorphic testing: restart and republication of generated "
            "histories", SIM),
    "C28": ("stateful testing of real processes: generated scenarios of a "
            "daemon and clients, against a sequential reference model",
            "libxcm is replaced by a stand-in of the same interface; the "
            "schedule of processes is the operating system's"),
}
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt run.py setup", "checks": [],
     "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "vf", "checks", i.lower() + ".py")):
        t, n = T.get(i, (HIST, SIM))
        m["checks"].append({
            "property": i, "quick_cmd": "python3-vt run.py %s quick" % i,
            "thorough_cmd": "python3-vt run.py %s thorough" % i,
            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({
            "property": i, "reason": "the check is not finished"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
