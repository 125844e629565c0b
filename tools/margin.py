#!/usr/bin/env python3
"""By how much are the planted bugs caught? In scratch copies, runs each one's check with ever fewer cases.

margin.py <scratch> <workers> <seed> [id...]    result lines on stdout: id, property, the least share of
the quick tier's cases (1/32, 1/8, 1/2 or all) that still reports it"""
import json, os, subprocess, sys, threading, queue
import mutate
here = mutate.here

def work(base, i, q, lock, seed):
    d = mutate.prepare(base, 100 + i)
    subprocess.check_call("git init -q %s/repo" % d, shell=True)
    if not mutate.cargo(d, "harness") or not mutate.cargo(d, "bindings"):
        print("worker %d: does not build" % i, flush=True)
        return
    env = dict(os.environ, VERIF_DIR=d + "/verif", VERIF_SEED=seed, VERIF_TIER="quick", VERIF_ADDON=d + "/t-bindings/debug/libnode_carmen_core.so",
               VERIF_INDEX_JS=d + "/repo/index.js", TMPDIR=d)
    while True:
        try:
            b = q.get_nowait()
        except queue.Empty:
            return
        p = "%s/seeded/%s/patch.diff" % (here, b)
        prop = json.load(open("%s/seeded/%s/meta.json" % (here, b)))["property"]
        if subprocess.run(["git", "-C", d + "/repo", "apply", p]).returncode:
            print(b, prop, "DOES NOT APPLY", flush=True)
            continue
        ok = mutate.cargo(d, "harness")
        if prop in ("C22", "C32"):
            ok = mutate.cargo(d, "bindings") and ok
        share = "none"
        if not ok:
            share = "no build"
        else:
            for one_in in (32, 8, 2, 1):
                try:
                    rc = subprocess.run([d + "/t-harness/debug/carmen-verif", "check", prop], cwd=d, env=dict(env, VERIF_ONE_IN=str(one_in)),
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600).returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    share = "1/%d" % one_in
                    break
        subprocess.check_call(["git", "-C", d + "/repo", "apply", "-R", p])
        with lock:
            print(b, prop, share, flush=True)

if __name__ == "__main__":
    base, workers, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    q, lock = queue.Queue(), threading.Lock()
    for b in sys.argv[4:] or sorted(os.listdir(here + "/seeded")):
        q.put(b)
    ts = [threading.Thread(target=work, args=(base, i, q, lock, seed)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
