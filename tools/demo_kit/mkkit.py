#!/usr/bin/env python3
"""mkkit.py <seeded dir>...: puts run.py and kit.tgz (simulator sources, demo.h) beside demo.cc."""
import gzip, io, os, sys, tarfile, shutil
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
buf = io.BytesIO()
def flt(ti):
    ti.mtime = 0; ti.uid = ti.gid = 0; ti.uname = ti.gname = ""; return ti
with tarfile.open(fileobj=buf, mode="w") as t:
    t.add(os.path.join(V, "sim"), "sim", filter=flt); t.add(os.path.join(H, "demo.h"), "demo.h", filter=flt)
blob = gzip.compress(buf.getvalue(), mtime=0)
for d in sys.argv[1:]:
    open(os.path.join(d, "kit.tgz"), "wb").write(blob); shutil.copy(os.path.join(H, "run.py"), os.path.join(d, "run.py"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
print(len(blob), "bytes")
