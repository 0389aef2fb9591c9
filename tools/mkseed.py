"""mkseed.py: (re)writes the kit files in every folder of /verif/seeded that uses them"""
import os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(V + "/seeded")):
    p = os.path.join(V, "seeded", d)
    if os.path.exists(p + "/demo.py"):
        for f in os.listdir(V + "/tools/demokit"):
            if f != "__pycache__":
                shutil.copy(os.path.join(V, "tools/demokit", f), p)
        with open(p + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nKIT=$(cd "$(dirname "$0")" && pwd)\n. "$KIT/kit.sh"\ndemo_build\ndemo_run "$KIT/demo.py"\n')
        os.chmod(p + "/demo.sh", 0o755)
