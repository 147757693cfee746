"""Calls into the natively compiled crate, in a separate process."""
import json, os, subprocess, sys

WORKER = r'''
import sys, json, ctypes
lib = ctypes.CDLL(sys.argv[1])
base0 = ctypes.cast(lib.h_scalar_add, ctypes.c_void_p).value
for line in sys.stdin:
    q = json.loads(line)
    bufs, args = [], []
    for a in q["args"]:
        if isinstance(a, int):
            args.append(ctypes.c_uint64(a))
            continue
        raw = bytes.fromhex(a)
        big = ctypes.create_string_buffer(len(raw) + 64)
        base = (ctypes.addressof(big) + 63) // 64 * 64
        ctypes.memmove(base, raw, len(raw))
        bufs.append((big, base, len(raw)))
        args.append(ctypes.c_void_p(base))
    if "off" in q:
        f = ctypes.CFUNCTYPE(ctypes.c_uint64, *[type(x) for x in args])(base0 + q["off"])
    else:
        f = getattr(lib, q["fn"])
        f.restype = ctypes.c_uint64
    r = f(*args)
    print(json.dumps({"ret": r, "bufs": [ctypes.string_at(b, n).hex() for _, b, n in bufs]}), flush=True)
'''


class Crash(Exception):
    pass


SYMS = {}


def symbols(lib):
    """Offsets of all functions of the library, private ones included, from h_scalar_add."""
    key = (lib, os.stat(lib).st_mtime_ns)
    if key not in SYMS:
        out = subprocess.run(["nm", lib], capture_output=True, text=True).stdout
        t = {}
        for l in out.splitlines():
            w = l.split()
            if len(w) == 3 and w[1] in "tT":
                t[w[2]] = int(w[0], 16)
        b = t["h_scalar_add"]
        SYMS[key] = {k: v - b for k, v in t.items()}
    return SYMS[key]


class Native:
    def __init__(self, lib):
        self.lib = lib
        self.p = None
        self.calls = 0

    def start(self):
        self.p = subprocess.Popen([sys.executable, "-c", WORKER, self.lib], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def call(self, fn, *args):
        """args: bytes (in/out buffers) or ints. Returns (ret, [buffers])."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        q = {"fn": fn, "args": [a if isinstance(a, int) else bytes(a).hex() for a in args]}
        if not fn.startswith("h_"):
            q["off"] = symbols(self.lib)[fn]
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            err = self.p.stderr.read()
            self.p.wait()
            self.p = None
            msg = [l for l in err.split("\n") if l.strip()]
            raise Crash("; ".join(msg[:3])[:400] or "process died")
        r = json.loads(line)
        return r["ret"], [bytes.fromhex(x) for x in r["bufs"]]

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
