import importlib, json, os, sys, traceback
from vlib.core import Check, MachineryError


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    c = Check(prop, tier, seed)
    try:
        try:
            mod = importlib.import_module("drivers." + prop.lower())
        except Exception as e:
            # the drivers import the code under test at module level: if that fails, the code is broken
            import traceback as tb
            frames = tb.extract_tb(e.__traceback__)
            if any(f.filename.startswith("/repo/") for f in frames) or isinstance(e, ImportError):
                c.violation(f"the code under test cannot be imported: {type(e).__name__}: {e}",
                            dict(tb=traceback.format_exc()))
                return c.finish()
            raise
        mod.run(c)
        return c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
