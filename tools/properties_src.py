"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties_src.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note="", state=()):
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe.split("; "), hook_needed=None)), note))

exec(open(os.path.join(ROOT, "tools", "properties_list.py")).read())

if __name__ == "__main__":
    from vf.props import REGISTRY
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p, _ in P]
    assert len(set(ids)) == len(ids)
    assert set(REGISTRY) <= set(ids), set(REGISTRY) - set(ids)
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        assert len(p["title"]) <= 80, p["title"]
        if i in REGISTRY:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                thorough_cmd="python3 check.py %s thorough" % i,
                technique="TLA+ specification, TLC model checking and trace validation of the real code",
                level="model_checking",
                level_note=note or "Every recorded execution of the real code is accepted or rejected by the TLA+ specification; coverage is the executions recorded (exhaustive small scope plus seeded random), trusting TLC and the recording harness."))
        else:
            na.append(dict(property=i, reason=NA.get(i, "specification and conformance driver not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: the drivers observe the public API, wrap the C library at link time, or instantiate the macro headers with tracing macros", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")
