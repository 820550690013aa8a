import importlib
import json
import os
import sys
import traceback


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        prop = rec["property"]
    else:
        rec = None
        prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rec:
        tier = rec.get("tier", tier)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from mc import engine

    try:
        import mc.sut  # imports dataprofiler from the working tree

        mod = importlib.import_module(f"mc.props.{prop.lower()}")
        if rec:
            for sp in mod.spaces(tier):
                if sp.name == rec["space"]:
                    msg = engine.run_case(sp, rec["case"], engine.Ctx())
                    print("REPRODUCED: " + msg if msg else "not reproduced")
                    sys.exit(1 if msg else 0)
            print("no such space")
            sys.exit(0)
        rc = engine.explore(prop, mod, tier)
    except Exception:
        # the code under test cannot even be imported or driven: the property cannot hold
        traceback.print_exc(file=sys.stdout)
        os.makedirs(os.path.join(engine.VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(engine.VERIF, "evidence", "replay", f"{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, space=None, case=None, message=traceback.format_exc()), f)
        with open(os.path.join(engine.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                           level="exploration",
                           coverage=dict(evaluations=0, distinct_nontrivial=0, rule="import failed", samples=[]),
                           wall_s=0, violations=1), f)
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
