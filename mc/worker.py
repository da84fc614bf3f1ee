"""Worker process: reads case numbers, runs them, answers in JSON lines."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = HERE


def main():
    prop, tier = sys.argv[1:3]
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = importlib.import_module("mc." + prop.lower())
    cases = mod.cases(tier)
    from mc import lib

    try:
        lib.load()
        loaderr = None
    except BaseException:
        loaderr = traceback.format_exc()
    for line in sys.stdin:
        i = int(line)
        rec = lib.Rec(cases[i])
        if loaderr is not None:
            rec.eval()
            rec.violate("import", "the package cannot be imported", loaderr)
            out = rec.result()
        else:
            try:
                lib.reset()
                mod.run(cases[i], rec)
                out = rec.result()
            except lib.CodeError as e:
                rec.violate("exception", "unexpected exception: %s" % e, e.tb)
                out = rec.result()
            except (MemoryError, KeyboardInterrupt):
                out = {"error": traceback.format_exc()}
            except BaseException as e:
                # raised by the code under test, or by what it answered
                rec.violate("exception", "unexpected %s: %s" % (type(e).__name__, str(e)[:200]),
                            traceback.format_exc())
                out = rec.result()
        proto.write(json.dumps(out) + "\n")
        proto.flush()


main()
