#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known_findings.jsonl from tools/fixed.txt, keeping the open findings (JSON lines)."""
import pathlib
V = pathlib.Path(__file__).resolve().parent.parent
f = V / "known_findings.jsonl"
keep = [l for l in f.read_text().splitlines() if l.startswith("{")] if f.exists() else []
for l in (V / "tools/fixed.txt").read_text().splitlines():
    p, c, w = l.split(" ", 2)
    keep.append(f"fixed: property={p} {c} {w}")
f.write_text("\n".join(keep) + "\n")
