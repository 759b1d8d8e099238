#!/bin/bash
# nothing to build: checks that the interpreter, pyodrx and every monitor module can be imported
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONPATH="$here:/repo" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3-vt
cd "$here" && mkdir -p evidence out && "$py" -c "
import json, importlib, pyodrx
m = json.load(open('MANIFEST.json'))
for c in m['checks']:
    importlib.import_module('rv.p.' + c['property'].lower())
print(len(m['checks']), 'monitors ready')"
