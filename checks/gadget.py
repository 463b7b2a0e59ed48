"""D12: the USB gadget back-end."""
import os, subprocess, json, sys
from . import V, BUILD, lock
from .engine import collect
IDS = ["D12"]
OUT = BUILD + "/gad"
def build():
    with lock("gad"):
        r = subprocess.run(["bash", V + "/gadget/build.sh", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout); raise SystemExit(2)
def run(pid, tier, rd):
    import __main__
    build()
    r = subprocess.run([OUT + "/gcheck", "--outdir", rd] + ["--thorough"] * (tier == "thorough"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode > 1 or r.returncode < 0: raise RuntimeError("gcheck failed: %d %s" % (r.returncode, r.stderr[-2000:]))
    x = collect(__main__.Result(), [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")], pid)
    x.assumptions = ["the kernel's side of /dev/hidg0 is a model (gadget/gcheck.cc): non-blocking writes fail with EAGAIN until the host has fetched the last report; single writes fail with ESHUTDOWN",
                     "a key without a HID usage in Linux' table emits nothing; KEYD codes 95, 128 and 130 may or may not be emitted; more than six keys down: any six of them"]
    x.extra["explorations"] = r.stderr.splitlines()
    return x
def replay(f):
    build(); return subprocess.run([OUT + "/gcheck", "--replay", f]).returncode
def about(pid):
    return ("explicit-state model checking of the USB gadget back-end to a fixed point",
            "Breadth-first search over every state the unmodified usb-gadget.c can reach under press and release events of an alphabet of keys (to the fixed point for alphabets of 7 to 9 keys, all 256 codes to depth 2 and 3), with a slow or failing host; after each event the report in the kernel is compared with the set of keys that are down. Trusted: the table of HID usages, the model of the device.")
