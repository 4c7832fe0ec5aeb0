#!/usr/bin/env python3
"""Runs the check of one property: builds the programs it consists of from /repo's working tree, runs
them, merges their evidence. Usage: check.py <ID> | check.py --setup

Exit 0: the property held on everything explored; 1: violated (with a VIOLATION line); anything else:
the check itself could not be carried out."""

import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")

# Property -> programs. A program is (crate, argument).
PROGRAMS = {
    "C01": [("native", "C01")],
    "C02": [("native", "C02")],
    "C03": [("native", "C03")],
    "C04": [("native", "C04")],
    "C05": [("native", "C05")],
    "C06": [("native", "C06")],
    "C07": [("native", "C07")],
    "C08": [("native", "C08"), ("counter", "C08")],
    "C09": [("native", "C09")],
    "C10": [("native", "C10")],
    "C11": [("yew", "C11")],
    "C12": [("macros", "C12")],
    "C13": [("macros", "C13")],
    "C14": [("macros", "C14")],
    "C15": [("macros", "C15")],
    "C16": [("dom", "C16")],
    "C17": [("native", "C17")],
    "C18": [("native", "C18")],
    "C19": [("native", "C19")],
    "C20": [("native", "C20")],
    "C21": [("yew", "C21")],
    "C22": [("dom", "C22")],
    "C23": [("native", "C23"), ("counter", "C23"), ("dom", "C23")],
    "C24": [("dom", "C24")],
}


def fail(msg):
    print(f"error: {msg}", file=sys.stderr)
    sys.exit(3)


def environment(crate):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    # One per crate: the library's file has the same name whatever features it was built with.
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, crate)
    env.setdefault("CARGO_TERM_COLOR", "never")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    wrapper = os.path.join(ROOT, "harness", crate, "rustc-wrapper.sh")
    if os.path.exists(wrapper):
        env["RUSTC_WRAPPER"] = wrapper
    return env


def build(crate):
    """Builds a program and returns its path."""
    env = environment(crate)
    cwd = os.path.join(ROOT, "harness", crate)
    p = subprocess.run(
        ["cargo", "build", "-q", "--offline"],
        cwd=cwd,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if p.returncode != 0:
        fail(f"building {crate} failed:\n{p.stdout[-6000:]}")
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "v" + crate)


def merge(prop, parts, wall, violated):
    """One evidence file from those of several programs."""
    evs = []
    for p in parts:
        try:
            with open(p) as f:
                evs.append(json.load(f))
        except (OSError, ValueError) as e:
            if violated:
                continue
            fail(f"no evidence from a part of {prop}: {e}")
    if not evs:
        return
    out = evs[0]
    cov = out["coverage"]
    rules = [cov["rule"]]
    for e in evs[1:]:
        c = e["coverage"]
        cov["evaluations"] += c["evaluations"]
        cov["distinct_nontrivial"] += c["distinct_nontrivial"]
        if c["rule"] not in rules:
            rules.append(c["rule"])
        cov["samples"] += c["samples"]
        for k, v in c.get("classes", {}).items():
            cov.setdefault("classes", {})[k] = cov.get("classes", {}).get(k, 0) + v
        cov.setdefault("parts", {}).update(c.get("parts", {}))
        for k, v in c.items():
            if k not in cov:
                cov[k] = v
        out["assumptions"] = out.get("assumptions", []) + [
            a for a in e.get("assumptions", []) if a not in out.get("assumptions", [])
        ]
        out["violations"] = out.get("violations", 0) + e.get("violations", 0)
    cov["rule"] = " | ".join(rules)
    out["wall_s"] = wall
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(out, f, indent=2, ensure_ascii=False)
        f.write("\n")


def run(prop):
    t0 = time.time()
    parts, codes = [], []
    replaying = "VERIF_REPLAY" in os.environ
    programs = PROGRAMS[prop]
    # Everything is built first: a program that cannot be built is an error, not a finding.
    paths = [build(crate) for crate, _ in programs]
    tmp = os.path.join(BUILD, f"parts-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    try:
        for n, ((crate, arg), path) in enumerate(zip(programs, paths)):
            env = environment(crate)
            env["VERIF_ROOT"] = ROOT
            env["VERIF_EVIDENCE"] = os.path.join(tmp, f"{n}.json")
            if env.get("VERIF_TIER", "quick") == "quick":
                env.setdefault("VERIF_LIMIT_S", str(max(60, int(t0 + 850 - time.time()))))
            sys.stdout.flush()
            codes.append(subprocess.run([path, arg], cwd=ROOT, env=env).returncode)
            parts.append(env["VERIF_EVIDENCE"])
            if codes[-1] == 1 and not replaying:
                break
        if replaying:
            # A replay belongs to one of the programs; the others do not know it (3).
            sys.exit(1 if 1 in codes else 0 if 0 in codes else 3)
        if all(c in (0, 1) for c in codes):
            merge(prop, parts, time.time() - t0, 1 in codes)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if 1 in codes:
        sys.exit(1)
    bad = [c for c in codes if c != 0]
    if bad:
        fail(f"a program of {prop} ended with {bad[0]}")
    sys.exit(0)


def main():
    if len(sys.argv) != 2:
        fail(__doc__)
    if sys.argv[1] == "--setup":
        for crate in sorted({c for ps in PROGRAMS.values() for c, _ in ps}):
            print("building", crate, flush=True)
            build(crate)
        return
    if sys.argv[1] not in PROGRAMS:
        fail(f"unknown property {sys.argv[1]}")
    run(sys.argv[1])


if __name__ == "__main__":
    main()
