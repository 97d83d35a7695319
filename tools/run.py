#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] : build from /repo and run one check."""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in rest:
        i = rest.index("--tier"); tier = rest[i + 1]; del rest[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.lstrip("-").isdigit():
        import zlib; seed = str(zlib.crc32(seed.encode()) % 1000000)
    seed = str(abs(int(seed)))
    cfg = CHECKS[prop]
    t = time.time()
    with vbuild.Lock():
        exe = vbuild.harness(cfg["harness"], cfg.get("variant", "asan"), cfg.get("extra", ()), cfg.get("libs", ()))
        env = dict(vbuild.ENV)
        env["VP_GEN"] = vbuild.GEN
        env["VP_REPO"] = vbuild.REPO
        env["VP_LIB"] = os.path.join(vbuild.BUILD, "libtp_%s.a" % cfg.get("variant", "asan"))
        env["VP_VERIF"] = vbuild.VERIF
        for name, variant in cfg.get("tools", {}).items():
            env[name] = vbuild.tool(variant)
    sys.stdout.write("build: %.1f s\n" % (time.time() - t))
    sys.stdout.flush()
    out = os.environ.get("VP_OUT", vbuild.VERIF)
    replay = os.path.join(out, "replay")
    os.makedirs(replay, exist_ok=True)
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    cmd = [exe, "--tier", tier, "--seed", seed, "--replay-dir", replay,
           "--evidence", os.path.join(out, "evidence", prop + ".json")] + rest
    p = subprocess.run(cmd, env=env)
    return p.returncode

if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        sys.stderr.write("BUILD-ERROR: %s\n" % e)
        sys.exit(2)
