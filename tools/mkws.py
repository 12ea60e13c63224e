#!/usr/bin/env python3
"""Makes /verif/build/ws, the overlay of /repo that the harness crate path-depends on.

The git dependencies of /repo's manifests (quinn-openssl, quinn-proto-openssl)
cannot be fetched here, and cargo resolves even the unused optional ones.  So
every file and directory of /repo is a symlink in ws, except the Cargo.toml
files.  Those are rewritten from /repo's present ones with these left out:
  - every optional dependency with a "git" key,
  - every feature that needs one of them, directly or through another feature,
  - every optional dependency that only such features asked for.
A git dependency that is not optional stops the script.
"""

import datetime
import os
import sys
import tomllib

REPO = "/repo"
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "ws")
SKIP = {".git", "target", "Cargo.lock"}
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")


def dep_tables(m):
    for t in [m, *m.get("target", {}).values()]:
        for name in TABLES:
            if name in t:
                yield t[name]


def drop_deps(m, gone, only_optional=True):
    for t in dep_tables(m):
        for k in list(t):
            if k in gone:
                if only_optional and not t[k].get("optional"):
                    sys.exit(f"mkws: {k} is a git dependency and not optional")
                del t[k]


def strip(manifests):
    """manifests: package name -> parsed manifest; edited in place."""
    gone_deps = {
        p: {
            k
            for t in dep_tables(m)
            for k, v in t.items()
            if isinstance(v, dict) and "git" in v
        }
        for p, m in manifests.items()
    }
    gone_feats = {p: set() for p in manifests}

    def bad(p, item):
        if item.startswith("dep:"):
            return item[4:] in gone_deps[p]
        if "/" in item:
            dep, feat = item.split("/", 1)
            name = dep.rstrip("?")
            if name in gone_deps[p]:
                return True
            return feat in gone_feats.get(name, ())
        return item in gone_feats[p] or item in gone_deps[p]

    changed = True
    while changed:
        changed = False
        for p, m in manifests.items():
            for f, items in m.get("features", {}).items():
                if f not in gone_feats[p] and any(bad(p, i) for i in items):
                    gone_feats[p].add(f)
                    changed = True
    for p, m in manifests.items():
        feats = m.get("features", {})
        explicit = {i for f in gone_feats[p] for i in feats[f] if i.startswith("dep:")}
        for f in gone_feats[p]:
            del feats[f]
        kept = {i for items in feats.values() for i in items}
        orphans = {i[4:] for i in explicit if i not in kept} - gone_deps[p]
        drop_deps(m, gone_deps[p] | orphans)
        for kind in ("bin", "example", "test", "bench"):
            if kind in m:
                m[kind] = [
                    t
                    for t in m[kind]
                    if not gone_feats[p] & set(t.get("required-features", ()))
                ]


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float, datetime.date, datetime.time)):
        return str(v)
    if isinstance(v, str):
        out = '"'
        for c in v:
            out += (
                "\\" + c
                if c in '"\\'
                else c
                if ord(c) >= 32 and ord(c) != 127
                else f"\\u{ord(c):04x}"
            )
        return out + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return "{ " + ", ".join(f"{value(k)} = {value(x)}" for k, x in v.items()) + " }"


def emit(m):
    out = []
    tables = {k: v for k, v in m.items() if isinstance(v, dict)}
    lists = {
        k: v
        for k, v in m.items()
        if isinstance(v, list) and v and all(isinstance(x, dict) for x in v)
    }
    for k, v in m.items():
        if k not in tables and k not in lists:
            out.append(f"{value(k)} = {value(v)}")
    for k, v in tables.items():
        out.append(f"\n[{value(k)}]")
        out += [f"{value(a)} = {value(b)}" for a, b in v.items()]
    for k, v in lists.items():
        for x in v:
            out.append(f"\n[[{value(k)}]]")
            out += [f"{value(a)} = {value(b)}" for a, b in x.items()]
    return "\n".join(out) + "\n"


def remove(path):
    if os.path.islink(path) or not os.path.isdir(path):
        os.remove(path)
    else:
        for e in os.listdir(path):
            remove(os.path.join(path, e))
        os.rmdir(path)


def mirror(rel, manifests, keep):
    """Links the entries of REPO/rel into WS/rel; descends to the members."""
    src, dst = os.path.join(REPO, rel), os.path.join(WS, rel)
    if os.path.islink(dst):
        os.remove(dst)
    os.makedirs(dst, exist_ok=True)
    entries = {e for e in os.listdir(src) if e not in SKIP}
    for e in os.listdir(dst):
        if e not in entries and os.path.join(rel, e) not in keep:
            remove(os.path.join(dst, e))
    for e in sorted(entries):
        r = os.path.join(rel, e)
        s, d = os.path.join(src, e), os.path.join(dst, e)
        if r in manifests:
            text = emit(manifests[r])
            if os.path.islink(d):
                os.remove(d)
            if not os.path.exists(d) or open(d, encoding="utf-8").read() != text:
                with open(d, "w", encoding="utf-8") as f:
                    f.write(text)
        elif any(x.startswith(r + "/") for x in manifests):
            mirror(r, manifests, keep)
        elif not (os.path.islink(d) and os.readlink(d) == s):
            if os.path.lexists(d):
                remove(d)
            os.symlink(s, d)


def load(path):
    with open(os.path.join(REPO, path), "rb") as f:
        return tomllib.load(f)


def main():
    root = load("Cargo.toml")
    manifests = {"Cargo.toml": root}
    for member in root["workspace"]["members"]:
        if member != ".":
            rel = os.path.join(os.path.normpath(member), "Cargo.toml")
            manifests[rel] = load(rel)
    strip({m["package"]["name"]: m for m in manifests.values()})
    mirror("", manifests, {"Cargo.lock"})


main()
