#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  --  see DESIGN.md"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, props


def main():
    if sys.argv[1] == "--setup":
        import shutil
        os.makedirs(os.path.join(core.VERIF, "build"), exist_ok=True)
        core.java_classes()
        return 0 if shutil.which("java") and shutil.which("gcc") and os.path.exists(core.CP.split(":")[0]) else 1
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn = props.REGISTRY.get(prop)
    if not fn:
        print("unknown property", prop)
        return 2
    ctx = core.Ctx(prop, tier, seed)
    try:
        bad = fn(ctx)
        ctx.rejections = bad or []
        if bad:
            # report only what a second, independent recording repeats
            first = {(b["module"], b["event"].get("e")) for b in bad}
            c2 = core.Ctx(prop, tier, seed)
            try:
                bad2 = fn(c2) or []
            finally:
                if not os.environ.get("VF_KEEP"):
                    c2.cleanup()
            if not bad2:
                print("a rejection did not repeat: %s" % sorted(map(str, first)))
                return 2
        elif hasattr(fn, "expect"):
            ctx.expect_events(*fn.expect)
        return ctx.finish()
    except core.CheckError as e:
        print("CHECK-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.environ.get("VF_KEEP"):
            print("work dir:", ctx.work)
        else:
            ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
