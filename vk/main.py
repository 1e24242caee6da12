"""check <ID> [--tier quick|thorough] [--seed N]"""
import argparse, faulthandler, importlib, os, shutil, sys, tempfile, traceback, warnings

sys.path.insert(0, "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    from vk.core import Check
    from vk.tlc import MachineryError
    ck = Check(a.pid, a.tier, a.seed)
    scratch = tempfile.mkdtemp(prefix="vk-" + a.pid + "-")
    ck.scratch = scratch
    home = os.getcwd()
    os.chdir(scratch)
    try:
        try:
            mod = importlib.import_module("checks." + a.pid.lower())
        except Exception:  # the code under test cannot even be imported
            tb = traceback.format_exc()
            if "/repo/postbound" in tb:
                ck.fail("import", tb)
                return ck.finish()
            raise
        try:
            mod.run(ck)
        except MachineryError:
            raise
        except Exception:
            tb = traceback.format_exc()
            frames = traceback.extract_tb(sys.exc_info()[2])
            if any("/repo/postbound" in f.filename for f in frames):
                ck.fail("unexpected exception outside of a behaviour", tb)
                return ck.finish()
            raise
        return ck.finish()
    except Exception:
        e = sys.exc_info()[1]
        print(e) if isinstance(e, MachineryError) else traceback.print_exc()
        print("MACHINERY-ERROR")
        return 3
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
