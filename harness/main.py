"""check <PROP>: decide one property against /repo's working tree."""
import importlib
import logging
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core   # noqa: E402


def setup():
    """Checks the number arithmetic of the specification; nothing is kept."""
    import tempfile
    with tempfile.TemporaryDirectory() as tmp:
        rc, out = core.tlc("NumTest", "NumTest.cfg", tmp, args=["-deadlock"])
        if rc != 0 or "No error has been found" not in out:
            print(out)
            return 2
    print("setup ok")
    return 0


def from_repo(e):
    """Did the exception come out of the code under test?"""
    if isinstance(e, core.WorkerError):
        return os.path.join(core.REPO, "py", "qsonic") in str(e)
    fr = traceback.extract_tb(e.__traceback__)
    return any(f.filename.startswith(os.path.join(core.REPO, "py", "qsonic"))
               for f in fr)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        sys.exit(setup())
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    core.setup_paths()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    chk = core.Check(prop, tier, seed)
    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
        mod.run(chk)
        rc = chk.finish()
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e, flush=True)
        rc = 2
    except Exception as e:
        # A step the specification enables that the code refuses, outside
        # the places where the driver records outcomes, or products so
        # different from the specified ones that they cannot be recorded.
        traceback.print_exc()
        if isinstance(e, (OSError, MemoryError)) and not from_repo(e):
            rc = 2
        else:
            chk.fail("driver", "enabled_step_raises" if from_repo(e)
                     else "products_cannot_be_recorded",
                     {"k": "crash", "name": type(e).__name__,
                      "trace": traceback.format_exc()[-3000:]})
            try:
                rc = chk.finish()
            except core.MachineryError as x:
                print("MACHINERY ERROR:", x, flush=True)
                rc = 2
    finally:
        import shutil
        shutil.rmtree(chk.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
