"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py
(one table, so that the two files and the registered checks stay in step)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))

READ_FILES = ["src/sync/cache.rs", "src/sync/segment.rs", "src/sync/base_cache.rs", "src/future/cache.rs",
              "src/future/base_cache.rs", "src/sync/entry_selector.rs", "src/future/entry_selector.rs"]
BASE = ["src/sync/base_cache.rs", "src/future/base_cache.rs"]

PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    an = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        an["state"] = state
    if observe:
        an["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=an, _tech=tech, _note=note, _na=na))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())


def main():
    import registry
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in registry.CHECKS:
            c = registry.CHECKS[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                               thorough_cmd="./check.sh %s thorough" % p["id"],
                               technique="static analysis: " + p["_tech"], level="other",
                               level_note=p["_note"] or NOTE))
        else:
            na.append(dict(property=p["id"], reason=p["_na"] or "no check registered yet"))
    missing = set(registry.CHECKS) - {p["id"] for p in PROPS}
    assert not missing, missing
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="Every check extracts the type-checked MIR of /repo's current working tree (mirdump/) and decides the property "
                   "on it with the engine in engine/. No code of the repository is run. No hooks are needed in /repo.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not claimed")


main()
