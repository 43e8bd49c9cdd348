#!/usr/bin/env python3
"""Builds the monitor crates once, so that a broken installation shows before any check runs."""
import check
from plan import PLAN

bins, missing, s = check.build([(c, v) for c in sorted({p["crate"] for p in PLAN.values()}) for v in ("checked", "release")])
print(f"{len(bins)} builds in {s:.0f} s")
