#!/usr/bin/env python3
"""coverage.py [seconds per property] [property...]: lines of /repo's sources that no simulated run reached."""
import collections, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build as builder, meta
secs = sys.argv[1] if len(sys.argv) > 1 else "10"
props = sys.argv[2:] or sorted(meta.PROPS)
exe = builder.build("cov")
out = os.path.join(os.path.dirname(exe), "out"); os.makedirs(out, exist_ok=True)
hit = set()
for p in props:
    env = dict(os.environ, SIM_COV=os.path.join(out, p + ".pcs"))
    subprocess.run([exe, "search", "--property", p, "--seed-base", "77000", "--time", secs, "--jobs", "8", "--min-runs", "10",
                    "--tier", "quick", "--out", out], env=env, stdout=subprocess.DEVNULL)
    got = {int(x, 16) for x in open(env["SIM_COV"])}
    print(p, len(got), "new", len(got - hit), flush=True)
    hit |= got
sites = []
p = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True)
nxt = False
for line in p.stdout:
    m = re.match(r"\s*([0-9a-f]+):\s+(.*)", line)
    if not m: continue
    if nxt: sites.append(int(m.group(1), 16))
    nxt = "<__sanitizer_cov_trace_pc>" in m.group(2) and "call" in m.group(2)
r = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % (a - 1) for a in sites), stdout=subprocess.PIPE, text=True)
total, cov = collections.Counter(), collections.Counter()
for a, l in zip(sites, r.stdout.split("\n")):
    l = l.split(" ")[0]
    if builder.REPO not in l: continue
    f, _, n = l.rpartition(":")
    if not n.isdigit(): continue
    key = (os.path.relpath(os.path.realpath(f), builder.REPO), int(n))
    total[key] += 1
    if a in hit: cov[key] += 1
files = collections.defaultdict(list)
for k in total:
    files[k[0]].append((k[1], cov[k] > 0))
with open(os.path.join(out, "report.txt"), "w") as f:
    for name in sorted(files):
        lines = files[name]; c = sum(1 for _, y in lines if y)
        f.write("%5.1f%% %4d/%4d %s\n" % (100 * c / len(lines), c, len(lines), name))
        try: src = open(os.path.join(builder.REPO, name)).read().split("\n")
        except OSError: continue
        for n, y in sorted(lines):
            if not y and n <= len(src): f.write("        %5d: %s\n" % (n, src[n - 1].rstrip()[:150]))
print(open(os.path.join(out, "report.txt")).read().count("%"), "files; see", os.path.join(out, "report.txt"))
