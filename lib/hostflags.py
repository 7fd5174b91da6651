"""The C flags for the driver that loads the plugin.

Go's build cache doesn't see C files that are included from another directory, so
what is in them goes into the flags."""
import hashlib
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def hostflags():
    h = hashlib.sha256()
    for top in ("/repo/bridge", "/repo/include", "/repo/pkg/bridge", "/repo/pkg/plugin", "/repo/pkg/vst3", os.path.join(VERIF, "cabi"), os.path.join(VERIF, "harness", "host")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    h.update((f + "\0").encode())
                    h.update(open(os.path.join(d, f), "rb").read())
    return "-O1 -w -DVERIF_SOURCES=%s -I%s" % (h.hexdigest()[:16], os.path.join(VERIF, "cabi", "a", "b"))


if __name__ == "__main__":
    print(hostflags())
