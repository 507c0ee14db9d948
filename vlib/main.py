"""Entry point of every check: python -m vlib.main <PROPERTY> [quick|thorough] [--replay FILE]."""
import importlib
import json
import os
import subprocess
import sys

from . import build, dirty, harness


def main(argv):
    prop = argv[0]
    tier = "quick"
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = json.loads(open(rest.pop(0)).read())
            tier = replay.get("tier", tier)
        else:
            raise SystemExit("unknown argument %r" % a)
    mod = importlib.import_module("checks." + prop.lower())
    variant = getattr(mod, "VARIANT", "plain")
    pkg = build.build(variant)
    if variant == "asan" and "VERIF_ASAN_ON" not in os.environ:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True,
                             check=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=lib, VERIF_ASAN_ON="1",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1")
        os.execve(sys.executable, [sys.executable, "-u", "-m", "vlib.main"] + argv, env)
    sys.path.insert(0, str(pkg))
    ctx = harness.Ctx(prop, tier, mod.LEVEL)
    if variant == "plain":
        dirty.on(0xc7)
    ctx.replay = replay
    ctx.pkg = pkg
    ctx.coverage["rule"] = " ".join(mod.RULE.split())
    try:
        mod.run(ctx)
        return harness.finish(ctx)
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
