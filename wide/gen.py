#!/usr/bin/env python3
"""Writes src/world.rs: a world with all 256 archetypes, ids in a scrambled order."""
ids = [(i * 37 + 11) % 256 for i in range(256)]
def comps(i):
    c = ["Tag"]
    if i % 3 == 0: c.append("X")
    if i % 7 == 0: c.append("Y")
    if i == 255: c.append("Solo")
    return c
o = ["// Written by gen.py.", "use crate::*;", "", "ecs_world! {", "    ecs_name!(Huge);"]
for i in range(256):
    o.append(f"    #[archetype_id({ids[i]})]")
    o.append(f"    ecs_archetype!(Arch{i}, {', '.join(comps(i))});")
o += ["}", ""]
o.append("table! {")
for i in range(256):
    fs = ", ".join(f"{c} {c.lower()}" for c in comps(i))
    o.append(f"    {i} {ids[i]} Arch{i} arch{i} Arch{i}Components [{fs}]")
o += ["}", ""]
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "src", "world.rs"), "w").write("\n".join(o))
