"""Try planted changes: tools/seedtest.py [-q] [-c] ID...   (all when none is given)
For each: a private copy of /repo bind-mounted over /repo in a user namespace,
the patch applied, rebuilt; -q skips the test suite, -c skips the demos.
Prints build / stable tests / demo on the clean and on the changed tree / the check."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
quick, nodemo = "-q" in args, "-c" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"]) 


def ns(repo, cmd, cwd="/repo", timeout=1200):
    e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd %s && %s" % (repo, cwd, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def one(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="sd-%s-" % i, dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        out = [i, m["property"]]
        demo = t + "/demo"
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(demo + "/" + f)
        if not nodemo:
            rc, o = ns(t + "/repo", "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh" % demo)
            out.append("demo-clean=%d" % rc + ("" if rc == 0 else " BAD " + o[-400:]))
        p = subprocess.run(["git", "-C", t + "/repo", "apply", d + "/patch.diff"], stderr=subprocess.PIPE)
        if p.returncode:
            return " ".join(out) + " PATCH DOES NOT APPLY " + p.stderr.decode()
        rc, o = ns(t + "/repo", "bash /opt/vp/build.sh")
        out.append("build=%d" % rc + ("" if rc == 0 else " BAD " + o[-600:]))
        if not quick:
            rc, o = ns(t + "/repo", "bash /opt/vp/test.sh /repo/bin/o.json")
            r = json.load(open(t + "/repo/bin/o.json"))
            miss = base - set(r["passed"])
            out.append("tests=" + ("ok" if not miss else "BAD " + " ".join(sorted(miss)[:6])))
        if not nodemo:
            rc, o = ns(t + "/repo", "timeout 300 bash %s/demo.sh" % demo)
            out.append("demo-patched=%d" % rc + (" BAD" if rc == 0 else ""))
        rc, o = ns(t + "/repo", "python3 %s/check.py %s" % (V, m["property"]))
        ok = rc == 1 and ("VIOLATION property=%s " % m["property"]) in o
        out.append("CAUGHT" if ok else "MISSED rc=%d %s" % (rc, o[-1500:]))
        if ok:
            out.append([l for l in o.splitlines() if l.startswith("rejected")][0][:160] if "rejected" in o else "")
        return " ".join(out)
    finally:
        shutil.rmtree(t, ignore_errors=True)


with cf.ThreadPoolExecutor(2 if len(ids) > 1 else 1) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
