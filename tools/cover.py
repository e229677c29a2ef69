#!/usr/bin/env python3
"""Development aid: lines of the library that no check executes.  tools/cover.py [C01 ...]"""
import os, re, sys, subprocess, glob, collections, mmap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
props = sys.argv[1:] or sorted(os.path.basename(p)[:-4] for p in glob.glob(V + "/harness/C*.cpp"))
hit = collections.defaultdict(set); allb = collections.defaultdict(set)
for p in props:
    cov = "/tmp/cov-%s" % p
    if os.path.exists(cov): os.remove(cov)
    env = dict(os.environ, VERIF_COVER="1", MC_COVER=cov)
    r = subprocess.run([V + "/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    exe = max(glob.glob(V + "/build/%s-*" % p), key=lambda f: os.path.getmtime(f) if not f.endswith(".o") else 0)
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE).stdout.decode()
    pcs = []; nxt = False
    for l in d.split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\s*(.*)", l)
        if not m: continue
        if nxt: pcs.append(int(m.group(1), 16)); nxt = False
        if "call" in m.group(2) and "__sanitizer_cov_trace_pc" in m.group(2): nxt = True
    data = open(cov, "rb").read()
    a = subprocess.run(["addr2line", "-e", exe] + ["-a"] , input="\n".join("%x" % x for x in pcs).encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
    cur = None
    for l in a:
        if l.startswith("0x"): cur = int(l, 16)
        elif l and REPO in l:
            f, n = l.split(" ")[0].rsplit(":", 1); f = os.path.normpath(f)
            if n == "?": continue
            allb[f].add(int(n))
            if data[cur]: hit[f].add(int(n))
    os.remove(cov); print(p, r.stdout.decode().strip().split("\n")[0][:100], flush=True)
for f in sorted(allb):
    miss = sorted(allb[f] - hit[f])
    print("%s: %d of %d block starts" % (f[len(REPO) + 1:], len(hit[f]), len(allb[f])), miss)
