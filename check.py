#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core


def main():
    prop = sys.argv[1]
    try:
        chk = core.Check(prop)
        mod = None
        for name in ("checks_template", "checks_text", "checks_site", "checks_new", "checks_dev", "checks_plugins", "checks_say"):
            try:
                m = __import__(name)
            except ModuleNotFoundError as e:
                if e.name == name:
                    continue
                raise
            if hasattr(m, prop):
                mod = m
        if mod is None:
            raise core.ToolError("no check for " + prop)
        getattr(mod, prop)(chk)
        if not chk.traces:
            raise core.ToolError("nothing was checked")
        return chk.finish()
    except core.ToolError as e:
        print("tool error: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
