#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json: python3 tools/gen.py

The properties are stated here once; what is claimed is what sa/registry.py registers."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sa import registry  # noqa: E402

CODE = "capi/src/implementation/visibility_graphs/code/"
PY = "capi/src/implementation/"


def c(*fs):
    return [CODE + f for f in fs]


GRAPH = "datastructures/graph/graph.cpp"
MOD = "datastructures/modified_graph/modified_graph.cpp"
SER = "serialization/graph_serializer.cpp"
SP = "shortest_path/shortest_path_computer.cpp"
VG = "visgraph/visgraph_generator.cpp"
VT = "visgraph/vistree_generator.cpp"
PER = "coordinate_periodicity/coordinate_periodicity.cpp"
COORD = "types/coordinate/coordinate.cpp"
SEG = "types/line_segment/line_segment.cpp"
POLY = "types/polygon/polygon.cpp"
LINE3 = "types/polyline/three_vertex_polyline.cpp"
ANG = "geom/angle_sorter/angle_sorter.cpp"
SSI = "datastructures/spatial_segment_index/spatial_segment_index.cpp"
OE = "datastructures/open_edges/open_edges.cpp"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                      why_tests_cant=why, anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                   "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                                                   "observe_at": list(observe), "hook_needed": None}, na=na))


exec(open(os.path.join(HERE, "props.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids), "duplicate ids"
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            q = {k: v for k, v in p.items() if k != "na"}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in PROPS:
        m = registry.META.get(p["id"])
        if m is not None:
            assert not p["na"], p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3 -m sa.check %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 -m sa.check %s --tier thorough" % p["id"],
                           "technique": m["technique"], "level": m["level"], "level_note": m["explanation"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "the check for this property is not built yet"})
    for pid in registry.META:
        assert pid in ids, pid
    man = {"version": 1, "setup_cmd": "python3 -m sa.build", "checks": checks, "not_applicable": na}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")


main()
