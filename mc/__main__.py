import importlib
import json
import os
import sys
import traceback


def main(argv):
    from mc import core

    if argv[0] == "run":
        prop, tier = argv[1], (argv[2] if len(argv) > 2 else "quick")
        try:
            module = importlib.import_module("mc.props." + prop)
            return core.run_check(module, tier)
        except Exception:
            traceback.print_exc()
            directory = os.path.join(core.VERIF, "replays")
            os.makedirs(directory, exist_ok=True)
            path = os.path.join(directory, prop + ".json")
            with open(path, "w") as fh:
                json.dump(
                    {"property": prop, "violations": [], "setup": traceback.format_exc()},
                    fh,
                )
            # the machinery is exercised on the unchanged tree: when it can no
            # longer even be set up, the behaviour it relies on is gone
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    if argv[0] == "replay":
        with open(argv[1]) as fh:
            data = json.load(fh)
        module = importlib.import_module("mc.props." + data["property"])
        code = 0
        for violation in data["violations"]:
            outcome, message = core.replay(module, violation)
            print(violation["trace"], "->", outcome, message or "no violation")
            code |= message is not None
        return int(code)
    raise SystemExit("usage: run PROPERTY [quick|thorough] | replay FILE")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
