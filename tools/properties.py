"""Source of properties.jsonl and MANIFEST.json: run `python3-vt tools/properties.py` after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MG = "SeismicMesh/generation/mesh_generator.py"
GU = "SeismicMesh/generation/utils.py"
SU = "SeismicMesh/geometry/utils.py"
SD = "SeismicMesh/geometry/signed_distance_functions.py"
SZ = "SeismicMesh/sizing/mesh_size_function.py"
MI = "SeismicMesh/migration/migration.py"
BL = "SeismicMesh/decomp/blocker.py"
FG = "SeismicMesh/geometry/cpp/fast_geometry.cpp"
CU = "SeismicMesh/migration/cpp/cpputils.cpp"
HJ = "SeismicMesh/sizing/cpp/FastHJ.cpp"
DC = ["SeismicMesh/generation/cpp/delaunay.cpp", "SeismicMesh/generation/cpp/delaunay_class.cpp", "SeismicMesh/generation/cpp/delaunay_class3.cpp"]
ALLPY = [MG, GU, SU, SD, SZ, MI, BL]

P = []


def prop(id, title, statement, over, qtext, why, files, mech, na=None, technique="", note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, technique=technique, note=note, state=state))


exec(open(os.path.join(V, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3-vt -c 'import numpy'", checks=[], not_applicable=[])
    for p in P:
        if p["na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            c = "python3-vt check.py %s" % p["id"]
            m["checks"].append(dict(property=p["id"], quick_cmd=c + " --tier quick", thorough_cmd=c + " --tier thorough", technique=p["technique"], level="other", level_note=p["note"]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
