#!/usr/bin/env python3
"""Derive /verif/.build/ws from /repo's current working tree.

/repo itself cannot be resolved by cargo offline (one of its manifests names a git
dependency).  The derived tree has generated copies of the Cargo.toml files without the
unavailable dependencies; sources are copied, and rewritten only when their content differs
(so cargo rebuilds exactly what changed, whatever the time stamps in /repo are).  Nothing in /repo is written.
Overridable for experiments: SIM_REPO (source tree), SIM_WS (derived tree).
"""
import os, re, shutil, sys

REPO = os.environ.get("SIM_REPO", "/repo")
WS = os.environ.get("SIM_WS", "/verif/.build/ws")
DROP = ("cw4-voting-v1", "cw-core-interface-v1", "osmosis-test-tube", "dao-migrator")
DROP_DIRS = ("contracts/external/dao-migrator",)
made = set()


def put(rel, text):
    path = os.path.join(WS, rel)
    made.add(rel)
    if os.path.islink(path):
        os.remove(path)
    elif os.path.isfile(path) and open(path, encoding="utf-8", errors="surrogateescape").read() == text:
        return
    elif os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(text)


def copytree(rel):
    """Copy files whose content changed; modification times then tell cargo exactly that."""
    full = os.path.join(REPO, rel)
    if os.path.isdir(full):
        for e in sorted(os.listdir(full)):
            copytree(os.path.join(rel, e))
    else:
        put(rel, open(full, "rb").read().decode("utf-8", "surrogateescape"))


def manifest(text):
    text = re.sub(r"(?m)^(%s)\s*=.*$" % "|".join(map(re.escape, DROP)), "", text)
    return text


def deep(sub):
    if os.path.exists(os.path.join(REPO, os.path.dirname(sub) or "-", "Cargo.toml")):
        return False
    return sub.split("/")[0] in ("contracts", "packages")


def visit(rel):
    for e in sorted(os.listdir(os.path.join(REPO, rel))):
        sub = os.path.join(rel, e) if rel else e
        full = os.path.join(REPO, sub)
        if sub in DROP_DIRS or e in (".git", "target", "Cargo.lock") or (rel == "" and e not in ("contracts", "packages", "Cargo.toml")):
            continue
        if e == "Cargo.toml":
            t = manifest(open(full).read())
            if rel == "":
                t = re.sub(r'(?m)^\s*"ci/\*",\s*$', "", t)
            put(sub, t)
        elif os.path.isdir(full) and deep(sub):
            visit(sub)
        elif rel.count("/") >= 1 and e not in ("src", "README.md"):
            continue  # tests, schemas and examples of a package are not compiled here
        else:
            copytree(sub)


os.makedirs(WS, exist_ok=True)
visit("")
for root, dirs, files in os.walk(WS, topdown=True):
    rel = os.path.relpath(root, WS)
    rel = "" if rel == "." else rel + "/"
    for n in files + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
        if rel + n not in made:
            os.remove(os.path.join(root, n))
for root, dirs, files in os.walk(WS, topdown=False):
    if not os.listdir(root):
        os.rmdir(root)
