#!/usr/bin/env python3
"""Makes build/ws: a Cargo workspace whose members are symlinks into /repo/src/rust.

/repo/src/rust/Cargo.toml cannot be loaded offline as it is (its root package has
no target and the wasm member has a missing dependency), and fcb_core/cli inherit
their dependency versions from it, so the manifest is copied without the root
package and with the two buildable members only (same idea as /opt/vp/overlay.py,
but written under /verif/build)."""
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("FCB_REPO", "/repo") + "/src/rust"
WS = os.environ.get("FCB_WS", HERE + "/build/ws")
MEMBERS = ["cli", "fcb_core"]


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as out:
            out.write(text)


text = open(f"{SRC}/Cargo.toml").read()
for table in ("package", "dependencies"):
    text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
text, n = re.subn(
    r"(?ms)^members\s*=\s*\[.*?\]", f"members = {MEMBERS!r}".replace("'", '"'), text
)
if n != 1:
    sys.exit("no members line in the workspace manifest")
os.makedirs(WS, exist_ok=True)
for name in MEMBERS + [".cargo"]:
    link = f"{WS}/{name}"
    if os.path.islink(link) and os.readlink(link) != f"{SRC}/{name}":
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(f"{SRC}/{name}", link)
put(f"{WS}/Cargo.toml", text)
put(f"{WS}/Cargo.lock", open(f"{HERE}/ws/Cargo.lock").read())
