import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from checks import CHECKS

src, cfg, name, inp = sys.argv[1:5]
shift = sys.argv[5] if len(sys.argv) > 5 else "0"
base = os.path.basename(src)
cfg, _, tag = cfg.partition(".")
opt = next((u[3] for c in CHECKS.values() for u in c["units"] if u[0] == base and u[3].get("tag", "") == tag), {})
with tempfile.TemporaryDirectory() as d:
    rt = os.path.join(d, "rt.o")
    subprocess.check_call(["g++", "-O1", "-fPIC", "-w", "-c", "-include", "cmath", "-o", rt, os.path.join(runner.VERIF, "harness/vp_rt.cpp")])
    exe = os.path.join(d, "exe")
    ok, err = runner.do_native(dict(exe=exe, src=os.path.join(runner.VERIF, "harness", base), cfg=cfg, extra=opt.get("flags", []), gxx=opt.get("gxx", []), cpu=opt.get("cpu"),
                                    libs=runner.unit_libs(opt, cfg, d), rt=rt, O=sys.argv[6] if len(sys.argv) > 6 else "-O1"))
    if not ok:
        print(err)
        sys.exit(2)
    sys.exit(subprocess.call([exe, name, inp, shift]))
