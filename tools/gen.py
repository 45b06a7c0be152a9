#!/usr/bin/env python3
"""Generate /verif/build/pt: the code under test, compiled against stand-ins.

Copies the library sources of /repo's working tree and rewrites three things:
  * `mod x;` in the crate root becomes `pub mod x;`, so that a harness reaches
    every public item of every module;
  * every path starting with `std::` starts with `vstd::` instead, so that
    locks, threads, channels, atomics and files are the controllable stand-ins;
  * the dependency on `rand` is the stand-in in /verif/rt/rand.
Files are only written when their content changes, so cargo rebuilds only then.
"""
import os, re, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
OUT = os.path.join(VERIF, "build", "pt")


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)


def rewrite(text):
    text = re.sub(r"(?<![\w:$])(::\s*)?std\s*::", lambda m: (m.group(1) or "") + "vstd::", text)
    text = re.sub(r"(?<![\w:$])(::\s*)?core\s*::\s*sync\s*::", lambda m: (m.group(1) or "") + "vstd::sync::", text)
    return text


def root_file(text):
    text = re.sub(r"(?m)^(\s*(?:#\[[^\]]*\]\s*)*)mod\s+(\w+)\s*;", r"\1pub mod \2;", text)
    lines = text.split("\n")
    k = 0
    while k < len(lines) and (lines[k].startswith("#![") or lines[k].startswith("//") or not lines[k].strip()):
        k += 1
    lines.insert(k, "#![allow(warnings)]\n#[macro_use] extern crate vstd;")
    return "\n".join(lines)


def main():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        cargo = tomllib.load(f)
    lib = cargo.get("lib", {}).get("path", "src/lib.rs")
    src = os.path.dirname(lib) or "src"
    seen = set()
    for d, dirs, files in os.walk(os.path.join(REPO, src)):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            seen.add(rel)
            with open(p, "rb") as fh:
                data = fh.read()
            if f.endswith(".rs"):
                text = rewrite(data.decode())
                if rel == lib:
                    text = root_file(text)
                data = text.encode()
            write(os.path.join(OUT, rel), data)
    for d, dirs, files in os.walk(os.path.join(OUT, src)):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), OUT)
            if rel not in seen:
                os.unlink(os.path.join(OUT, rel))
    pkg = cargo["package"]
    t = ["[package]", 'name = "pt"', 'version = "0.0.1"', 'edition = "%s"' % pkg.get("edition", "2015"),
         "", "[lib]", 'path = "%s"' % lib, "", "[dependencies]",
         'vstd = { path = "%s/rt/vstd" }' % VERIF]
    for name, dep in cargo.get("dependencies", {}).items():
        if name == "rand":
            t.append('rand = { path = "%s/rt/rand" }' % VERIF)
        elif isinstance(dep, str):
            t.append('%s = "%s"' % (name, dep))
        else:
            t.append("%s = { %s }" % (name, ", ".join("%s = %s" % (k, ("true" if v is True else "false" if v is False else '"%s"' % v if isinstance(v, str) else str(v).replace("'", '"'))) for k, v in dep.items())))
    feats = cargo.get("features", {})
    if feats:
        t += ["", "[features]"] + ["%s = [%s]" % (k, ", ".join('"%s"' % x for x in v)) for k, v in feats.items()]
    write(os.path.join(OUT, "Cargo.toml"), "\n".join(t) + "\n")


main()
