"""An overlay for go build in which the repository's packages use the scheduler's stand-ins
for sync and sync/atomic. Nothing else in their source changes, and nothing is written in
the repository."""
import json, os, re

SHIM = {"sync": "verifharness/shim/vsync", "sync/atomic": "verifharness/shim/vatomic"}
NAME = {"sync": "sync", "sync/atomic": "atomic"}


def rewrite(src):
    """Replaces the two imports in the import declarations; None if there are none."""
    # the import declarations end where the first other declaration starts
    m = re.search(r"^(func|type|var|const)\b", src, re.M)
    end = m.start() if m else len(src)
    head, tail = src[:end], src[end:]

    def repl(m):
        alias, path = m.group(2), m.group(3)
        return f'{m.group(1)}{(alias or NAME[path] + " ")}"{SHIM[path]}"'
    new = re.sub(r'(^[ \t]*(?:import[ \t]+)?)([A-Za-z_][\w]*[ \t]+|\.[ \t]+)?"(sync|sync/atomic)"', repl, head, flags=re.M)
    new = re.sub(r'(^import[ \t]*\([ \t]*)([A-Za-z_][\w]*[ \t]+)?"(sync|sync/atomic)"', repl, new, flags=re.M)
    if new == head:
        return None
    return new + tail


SWEEP = """//go:build verifsweep

package synccache

// VerifTrim runs one background sweep of sc.
func VerifTrim[K comparable, V any](sc *SyncCache[K, V]) { sc.trim() }
"""


def make(repo, src, out, level):
    os.makedirs(out, exist_ok=True)
    rep = {}
    n = 0
    for d, dirs, files in os.walk(repo):
        dirs[:] = [x for x in dirs if not x.startswith((".", "_")) and x != "testdata"]
        for f in sorted(files):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            p = os.path.join(d, f)
            new = rewrite(open(p, encoding="utf-8").read())
            if new is not None:
                n += 1
                q = os.path.join(out, f"f{n}.go")
                open(q, "w", encoding="utf-8").write(new)
                rep[p] = q
    if level >= 2:
        q = os.path.join(out, "sweep.go")
        open(q, "w").write(SWEEP)
        rep[os.path.join(repo, "synccache", "zz_verif_sweep.go")] = q
    path = os.path.join(out, "overlay.json")
    json.dump({"Replace": rep}, open(path, "w"))
    return path
