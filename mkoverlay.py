# usage: mkoverlay.py HARNESS REPO WORK BIN: prints the overlay for go build.
import json, os, re, subprocess, sys
harness, repo, work, binname = sys.argv[1:5]
m = {}
# genmc is dbmc with a runtime that leaves the start of every map iteration to the explorer
control_maps = binname == "genmc"
# schedmc is ddlmc with a scheduling point before every statement of ddlctl
control_sched = binname == "schedmc"
src = "dbmc" if control_maps else "ddlmc" if control_sched else binname
for pkg in ("core", "model", "sut", "alpha", "fakedb", "sched", src):
    d = os.path.join(harness, pkg)
    if not os.path.isdir(d):
        continue
    for f in sorted(os.listdir(d)):
        if f.endswith(".go"):
            m[os.path.join(repo, "pkg/internal/zzverif", pkg, f)] = os.path.join(d, f)
if src == "dbmc":
    # the pauses of the retry library are scaled down by 1000: the explorer works in model time;
    # what it adds at random to a pause is the explorer's choice of the two extremes
    try:
        d = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/kunitsucom/util.go"], cwd=repo, capture_output=True, text=True, check=True).stdout.strip()
        src = os.path.join(d, "retry", "retry.go")
        s = open(src).read()
        t = s.replace("time.After(r.RetryAfter())", "time.After(verifPause(r.RetryAfter()))")
        if t != s:
            t = t.replace("rand.Int63n(int64(j.minJitter)+int64(j.maxJitter))", "verifJitter(int64(j.minJitter)+int64(j.maxJitter))", 1)
            t += """
func verifPause(d time.Duration) time.Duration {
	if d > 10*time.Minute {
		panic("verif: apply pauses for " + d.String() + " before the next attempt")
	}
	return d / 1000
}

func verifJitter(n int64) int64 {
	if verifHigh {
		return n - 1
	}
	return 0
}

var verifHigh bool
"""
            dst = os.path.join(work, "retry.go")
            open(dst, "w").write(t)
            m[src] = dst
    except Exception as e:
        print("note: real-time retries:", e, file=sys.stderr)
if control_maps:
    root = subprocess.run(["go", "env", "GOROOT"], cwd=repo, capture_output=True, text=True, check=True).stdout.strip()
    src = os.path.join(root, "src/runtime/map.go")
    s = open(src).read()
    t = s.replace("\tr := uintptr(rand())\n", "\tr := verifMapStart(h)\n", 1)
    if t == s:
        sys.exit("the runtime of this toolchain iterates over maps in another way")
    open(os.path.join(work, "map.go"), "w").write(t)
    open(os.path.join(work, "zz_verif.go"), "w").write("""package runtime

var verifMapHook func(n, b int) uintptr

func verifMapStart(h *hmap) uintptr {
	if f := verifMapHook; f != nil {
		return f(h.count, int(h.B))
	}
	return uintptr(rand())
}
""")
    m[src] = os.path.join(work, "map.go")
    m[os.path.join(root, "src/runtime/zz_verif.go")] = os.path.join(work, "zz_verif.go")
if control_sched:
    files = []
    for base, dirs, names in os.walk(os.path.join(repo, "pkg")):
        dirs[:] = [d for d in dirs if d not in ("testdata", "zzverif")]
        files += [os.path.join(base, n) for n in names if n.endswith(".go") and not n.endswith("_test.go")]
    r = subprocess.run(["go", "run", os.path.join(harness, "instr", "main.go"), work, "github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sched", *sorted(files)], cwd="/", capture_output=True, text=True)
    if r.returncode != 0:
        sys.exit(r.stderr)
    m.update(json.loads(r.stdout))
print(json.dumps({"Replace": m}))
