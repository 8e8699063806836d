"""Single source of properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/waymo_open_dataset/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level="model_checking",
         technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[W + f for f in files],
                               mechanism=[dict(name=n, where=W + w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=W + c) for a, b, c in state]} if state else {}),
                               **({"observe_at": observe} if observe else {}), hook_needed=None),
                  _level=level, _technique=technique, _note=note, _na=na))


exec(open(V + "/lib/props_data.py").read())


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    import sys
    sys.path.insert(0, V + "/lib")
    from checks import CHECKS
    m = dict(version=1, setup_cmd="python3 lib/setup.py",
             checks=[dict(property=p["id"], quick_cmd="python3 lib/run.py " + p["id"],
                          thorough_cmd="VERIF_TIER=thorough python3 lib/run.py " + p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"],
                          level=p["_level"], level_note=p["_note"]) for p in P if p["id"] in CHECKS],
             not_applicable=[dict(property=p["id"], reason=p["_na"] or "check not built yet") for p in P
                             if p["id"] not in CHECKS],
             notes="Harnesses compile from /repo's working tree into /verif/build (git-ignored) on every run; no hooks in /repo.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "claimed")


if __name__ == "__main__":
    main()
