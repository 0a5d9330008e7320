"""C20: bundles and drives the page (front/run.cjs) under node."""
import json, os, shutil, subprocess, tempfile, time


def run(c, cid, a):
    work = tempfile.mkdtemp(prefix="siafront-")
    try:
        out = work + "/result.json"
        cmd = ["node", c.VERIF + "/front/run.cjs", "--tier", a.tier, "--seed", str(a.seed), "--budget",
               "120" if a.tier == "quick" else "600", "--out", out]
        if a.section is not None:
            cmd += ["--section", a.section, "--case", str(a.case)]
        try:
            r = subprocess.run(cmd, env=dict(os.environ, TMPDIR=work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=800)
        except subprocess.TimeoutExpired:
            raise c.NoVerdict("the page run did not finish")
        if r.returncode != 0:
            raise c.NoVerdict("the page does not build or run: " + r.stdout[-1500:])
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)
