#!/usr/bin/env python3
"""Lays out build/subset: the part of /repo/src that compiles with the cached sqlparser, as a library package.

Same selection as /opt/vp/subset.py (which the repository's own build here uses): files are copied from
/repo's working tree on every run, only when their content changed."""
import os, re, sys
REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(os.environ.get("DST_BUILD", os.path.join(HERE, "build")), "subset")
EXCLUDE = ["src/sql/execution/expression_parser.rs", "src/sql/planner/plan_builder.rs",
           "src/sql/planner/query_planner.rs", "src/sql/execution/execution_engine.rs",
           "src/common/db_instance.rs", "src/server/server_impl.rs", "src/server/connection.rs",
           "src/client", "src/cli.rs", "src/main.rs"]
MODS = {"src/lib.rs": ["cli", "client"], "src/common/mod.rs": ["db_instance"],
        "src/server/mod.rs": ["server_impl", "connection"],
        "src/sql/execution/mod.rs": ["expression_parser", "execution_engine"],
        "src/sql/planner/mod.rs": ["plan_builder", "query_planner"]}
def excluded(rel):
    return any(rel == e or rel.startswith(e + "/") for e in EXCLUDE)
want = {}
for d, _, files in os.walk(f"{REPO}/src"):
    for f in files:
        rel = os.path.relpath(f"{d}/{f}", REPO)
        if excluded(rel):
            continue
        data = open(f"{d}/{f}", "rb").read()
        if rel in MODS:
            t = data.decode()
            for m in MODS[rel]:
                t = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", t)
            data = t.encode()
        want[rel] = data
man = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
# package and dependency sections only: no benches, no dev-dependencies, no profiles
keep = []
for sec in re.split(r"(?m)^(?=\[)", man):
    name = sec.split("\n", 1)[0].strip()
    if name in ("[package]", "[dependencies]", "[features]") or name.startswith("[dependencies.") or name.startswith("[lints"):
        if name == "[package]":
            sec = re.sub(r'(?m)^(readme|build) *=.*\n', "", sec).rstrip("\n") + "\nbuild = false\nautobenches = false\nautotests = false\nautobins = false\nautoexamples = false\n\n"
        keep.append(sec)
want["Cargo.toml"] = "".join(keep).encode()
os.makedirs(OUT, exist_ok=True)
for d, _, files in os.walk(OUT, topdown=False):
    for f in files:
        if os.path.relpath(f"{d}/{f}", OUT) not in want:
            os.remove(f"{d}/{f}")
    if d != OUT and not os.listdir(d):
        os.rmdir(d)
for rel, data in want.items():
    p = f"{OUT}/{rel}"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p, "rb").read() != data:
        with open(p, "wb") as f:
            f.write(data)
