#!/usr/bin/env python3
"""mutrun.py ALL.jsonl OUT.jsonl [SECONDS]: mutation sweep.  Every small change
listed by tools/mutate is tried in scratch copies: does it compile, do the
repository's tests notice it, and which of the checks report it?  Survivors are
either changes without an observable effect or gaps.  Resumes OUT.jsonl."""
import json, os, queue, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL, OUT = sys.argv[1:3]
SEC = sys.argv[3] if len(sys.argv) > 3 else "2s"
N = int(os.environ.get("MUT_WORKERS", "8"))
ORDER = {
 "client.go": "P02 P15 P26 P25 P20 P12 P10 P11 P13 P01 P03 P04 P14 P09 P19",
 "registry.go": "P09 P10 P02 P19 P20 P11 P15 P12",
 "metrics.go": "P05 P07 P08 P06 P02 P03 P13 P19 P04 P20",
 "instance_domain.go": "P02 P09 P05 P15",
 "instance.go": "P02 P09", "speed.go": "P02 P21 P14", "config.go": "P21 P20",
 "bytewriter/bytewriter.go": "P22 P02 P04 P03",
 "bytewriter/memorymappedwriter.go": "P12 P25 P14 P20 P13 P02 P01",
 "mmvdump/mmvdump.go": "P16 P17 P23 P18 P19 P20",
 "mmvdump/writer.go": "P23 P18 P17 P16 P20", "mmvdump/pcp.go": "P23 P16", "mmvdump/cmd/mmvdump/main.go": "P24 P20",
}
REST = ["P%02d" % i for i in range(1, 27)]
def run(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-9", "-f", cwd], check=False)
        return 124, "timeout"
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["off"], r["end"], r["new"]))
q = queue.Queue()
for l in open(ALL):
    m = json.loads(l)
    if (m["file"], m["off"], m["end"], m["new"]) not in done: q.put(m)
lock = threading.Lock()
out = open(OUT, "a")
def worker(k):
    w = "/tmp/mut/w%d" % k
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/verif"); os.makedirs(w + "/tmp")
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    shutil.copytree(V + "/sim", w + "/verif/sim"); shutil.copy(V + "/build.sh", w + "/verif/")
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TMPDIR=w + "/tmp", GOCACHE="/tmp/mut/gocache", SPEED_REPO=w + "/repo", GOMAXPROCS="2")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = w + "/repo/" + m["file"]
        orig = open("/repo/" + m["file"], "rb").read()
        open(f, "wb").write(orig[:m["off"]] + m["new"].encode() + orig[m["end"]:])
        r = dict(m)
        rc, o = run(["go", "build", "./..."], w + "/repo", env, 120)
        if rc: r["result"] = "nocompile"
        else:
            rc, o = run(["prlimit", "--as=8589934592", "go", "test", "-vet=off", "-count=1", "-timeout", "20s", ".", "./bytewriter", "./mmvdump"], w + "/repo", env, 90)
            if rc: r["result"] = "tests"
            else:
                rc, o = run(["bash", w + "/verif/build.sh"], w + "/verif", env, 300)
                if rc: r["result"] = "nobuild"; r["msg"] = o[-400:]
                else:
                    h = o.strip().splitlines()[-1]
                    l = ORDER.get(m["file"], "").split(); l += [p for p in REST if p not in l]
                    r["result"] = "survived"; bad = {}
                    for p in l:
                        rc, o = run([h, "-prop", p, "-seed", "1", "-time", SEC if p in ORDER.get(m["file"], "") else "1s", "-min", "10", "-workers", "1", "-evidence", w + "/e", "-replays", w + "/r"], w, env, 100)
                        if rc == 1:
                            r["result"] = "caught"; r["by"] = p; r["msg"] = (o.splitlines() or [""])[0][:200]; break
                        if rc: bad[p] = (rc, o[-200:])
                    if bad: r["odd"] = bad
        open(f, "wb").write(orig)
        with lock:
            out.write(json.dumps(r) + "\n"); out.flush()
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(N)]
for t in ts: t.start()
for t in ts: t.join()
