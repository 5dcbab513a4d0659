#!/usr/bin/env python3
"""Makes overlay/ov: symbolic links to every crate of /repo, so that the crates above
sunscreen_tfhe build from /repo's own files although mux_circuits/src/data lacks one
file (a placeholder takes its place; nothing the monitors run reads it)."""
import os, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
NEEDED = {"multiplier-n32-m32": "multiplier-n16-m16"}


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def make(ov=os.path.join(HERE, "ov")):
    os.makedirs(ov, exist_ok=True)
    want = set()
    for n in os.listdir(REPO):
        if n in (".git", "target", "mux_circuits") or n.startswith("."):
            continue
        link(os.path.join(REPO, n), os.path.join(ov, n))
        want.add(n)
    for n in os.listdir(ov):
        if n not in want and n != "mux_circuits":
            os.unlink(os.path.join(ov, n))

    def dirs(rel, inner):
        src, dst = os.path.join(REPO, "mux_circuits", rel), os.path.join(ov, "mux_circuits", rel)
        os.makedirs(dst, exist_ok=True)
        have = set(os.listdir(src)) if os.path.isdir(src) else set()
        for n in have - set(inner):
            link(os.path.join(src, n), os.path.join(dst, n))
        for n in os.listdir(dst):
            if n not in have and n not in inner and os.path.islink(os.path.join(dst, n)):
                os.unlink(os.path.join(dst, n))
        return src, dst, have

    dirs("", ["src"])
    dirs("src", ["data"])
    src, dst, have = dirs("src/data", [])
    for n, sub in NEEDED.items():
        if n not in have:
            shutil.copy(os.path.join(src, sub), os.path.join(dst, n)) if not os.path.exists(os.path.join(dst, n)) else None


if __name__ == "__main__":
    make()
