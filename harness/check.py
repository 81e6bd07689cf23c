#!/opt/venv/bin/python
"""check.py <property> [--replay file]"""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import uxenv, core


def main():
    pid = sys.argv[1]
    ctx = core.Ctx(pid)
    mod = importlib.import_module("props." + pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            rp = json.load(f)
        ctx.tier, ctx.seed = rp.get("tier", ctx.tier), rp.get("seed", ctx.seed)
        ctx.only = rp["case"]
    try:
        if getattr(mod, "CPP", True):
            uxenv.start_cpp_build()
        mod.run(ctx)
    except uxenv.MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY-ERROR property=%s" % pid)
        return 2
    return core.finish(ctx)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    import atexit
    atexit._run_exitfuncs()
    os._exit(rc)
