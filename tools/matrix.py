#!/usr/bin/env python3
"""matrix.py [SECONDS] [ID...]: runs every check against every planted bug in
scratch copies and prints which report it (a line per bug)."""
import os, queue, shutil, subprocess, sys, threading, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sec = sys.argv[1] if len(sys.argv) > 1 else "4s"
ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
q = queue.Queue()
for i in ids: q.put(i)
lock = threading.Lock(); res = {}
def worker(k):
    w = "/tmp/mat/w%d" % k
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/verif")
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    shutil.copytree(V + "/sim", w + "/verif/sim"); shutil.copy(V + "/build.sh", w + "/verif/")
    env = dict(os.environ, GOCACHE="/tmp/mut/gocache", SPEED_REPO=w + "/repo", GOMAXPROCS="2")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo")
        if subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=w + "/repo").returncode:
            print(i, "does not apply"); continue
        p = subprocess.run(["bash", w + "/verif/build.sh"], env=env, capture_output=True, text=True)
        if p.returncode: print(i, "does not build"); continue
        h = p.stdout.strip().splitlines()[-1]; by = []
        for n in range(1, 27):
            r = subprocess.run([h, "-prop", "P%02d" % n, "-seed", "1", "-time", sec, "-min", "10", "-workers", "1", "-evidence", w + "/e", "-replays", w + "/r"], env=env, cwd=w, capture_output=True).returncode
            if r: by.append("P%02d" % n + ("" if r == 1 else "(rc %d)" % r))
        with lock:
            print(i, " ".join(by), flush=True)
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
