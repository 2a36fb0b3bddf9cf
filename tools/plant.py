"""plant(id, prop, edits=[(file, old, new)], demo=python source, needs=, breaks=): writes seeded/<id>/"""
import json
import os
import subprocess
import tempfile
import shutil

HEAD = '''#!/bin/bash
# exit 0 on a correct tree, non-zero when the property is broken
cd "${REPO_DIR:-$PWD}"
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TMPDIR=$W
'''
SER = HEAD + 'cd "$W" && timeout 250 /opt/venv/bin/python "$D/demo.py"\n'
PAR = HEAD + '''export HOME=/root OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_rmaps_base_oversubscribe=1
export PATH=/opt/venv/bin:$PATH
cd "$W" && timeout -k 5 %(to)d mpiexec --oversubscribe -n %(np)d /opt/venv/bin/python "$D/demo.py"
'''


def plant(id, prop, edits, demo, needs, breaks, np=0, to=100):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", w + "/r"])
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(PAR % dict(np=np, to=to) if np else SER)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
