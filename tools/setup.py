#!/usr/bin/env python3
"""setup_cmd: parses every specification and imports every harness module."""
import concurrent.futures
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "harness"))
import common  # noqa

os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)


def parse(f):
    r = subprocess.run(["java", "-cp", common.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=common.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    text = r.stdout.decode()
    return f, r.returncode == 0 and "rror" not in text, text


bad = 0
with concurrent.futures.ThreadPoolExecutor(common.CORES) as ex:
    for f, ok, text in ex.map(parse, sorted(glob.glob(common.SPEC + "/*.tla"))):
        print("%s %s" % ("parsed" if ok else "CANNOT PARSE", os.path.basename(f)))
        if not ok:
            print(text)
            bad = 1
subprocess.check_call([common.TARGET_PYTHON, "-B", "-c", "import sys; sys.path.insert(0, %r); import spine_json_lib" % common.REPO])
sys.exit(bad)
