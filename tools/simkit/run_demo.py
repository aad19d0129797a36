"""Runs one cocotb demo module on a bare wire-only top level under Icarus, in a scratch directory.
usage: run_demo.py MODULE TOP.v [PARAM=VALUE ...]; exit 0 only if every cocotb test passed."""
import os, sys, tempfile, shutil, subprocess, xml.etree.ElementTree as ET
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("DEMO_REPO", "/repo")
module, top = sys.argv[1], sys.argv[2]
params = dict(a.split("=", 1) for a in sys.argv[3:])
os.environ["PATH"] = "/opt/venv/bin:" + os.environ["PATH"]
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
work = tempfile.mkdtemp(prefix="demo_")
try:
    vvp = os.path.join(work, "sim.vvp")
    name = os.path.splitext(os.path.basename(top))[0]
    cmd = ["iverilog", "-o", vvp, "-s", name, "-g2012"]
    cmd += [f"-P{name}.{k}={v}" for k, v in params.items()]
    cmd.append(os.path.join(here, top))
    subprocess.run(cmd, check=True)
    def cfg(*a):
        return subprocess.check_output(["/opt/venv/bin/cocotb-config", *a], text=True).strip()
    libdir = cfg("--lib-dir")
    res = os.path.join(work, "results.xml")
    env = dict(os.environ, MODULE=module, TOPLEVEL=name, TOPLEVEL_LANG="verilog", RANDOM_SEED="1",
               COCOTB_RESULTS_FILE=res, PYTHONPATH=f"{here}:{repo}", LIBPYTHON_LOC=cfg("--libpython"),
               PYGPI_PYTHON_BIN="/opt/venv/bin/python", COCOTB_ANSI_OUTPUT="0")
    env.pop("TESTCASE", None)
    p = subprocess.run(["vvp", "-M", libdir, "-m", cfg("--lib-name", "vpi", "icarus"), vvp], env=env, cwd=work,
                       timeout=240, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.stdout.write(p.stdout[-6000:])
    cases = list(ET.parse(res).getroot().iter("testcase"))
    bad = [c for c in cases if c.find("failure") is not None or c.find("error") is not None or c.find("skipped") is not None]
    print(f"demo: {len(cases)} cases, {len(bad)} failed")
    sys.exit(0 if cases and not bad else 1)
finally:
    shutil.rmtree(work)
