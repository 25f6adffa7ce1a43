"""Replays a failing input on the real code:  python3 -m irvc.replay PROPERTY HARNESS INPUT...   (or: PROPERTY HARNESS random SEED)"""
import os, shutil, subprocess, sys
from irvc import check


def main():
    pid, h, args = sys.argv[1], sys.argv[2], sys.argv[3:]
    os.makedirs(check.WORK, exist_ok=True); rc = 0
    for u in check.PROPS[pid]["units"]:
        exe, msg = check.compile_native(u)
        if exe is None: print(msg); rc = 2; continue
        cmd = [exe, "random", h, args[1], "100000"] if args[:1] == ["random"] else [exe, "replay", h] + args
        r = subprocess.run(cmd).returncode
        if r != 2: rc = r; break
    shutil.rmtree(check.WORK, ignore_errors=True)
    sys.exit(rc)


main()
