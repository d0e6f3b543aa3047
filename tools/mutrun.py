#!/usr/bin/env python3
"""mutrun.py N SEED FILE... : samples N mutants of the given /repo files; those that build and pass the tests are run against
the checks named in CHECKS (by file); prints the ones nothing detects. Works in scratch copies only."""
import sys, os, json, random, subprocess, tempfile, shutil, concurrent.futures as cf
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=vendor", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
def checks(f):
    f = f.replace("/repo/", "")
    if f.startswith("ihex32") or f.startswith("srec19"): return ["H01" if f[0]=="i" else "H02", "H03", "H04", "R01", "C02", "C01"]
    if f == "a2l/record_layout.go": return ["A02", "A05", "L01", "V05"]
    if f in ("a2l/enums.go",): return ["A02", "A05", "V01"]
    if f in ("a2l/module.go", "a2l/token_generator.go", "a2l/a2l.go", "a2l/project.go"): return ["A01", "A02", "A03", "A04", "A05", "A06", "R01", "C02", "C01"]
    if f.startswith("a2l/"): return ["A02", "A05", "R01"]
    if f == "compu_methods.go": return ["V03"]
    if f == "record_manager.go": return ["I02", "V01", "V04", "V05", "V06"]
    if f == "calib_data.go": return ["V01", "V02", "V04", "V05", "V06", "I01", "R01"]
    return ["V05", "V06"]
n, seed = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:]
frac = os.environ.get("VERIF_FRACTION", "10")
w = tempfile.mkdtemp(prefix="mutrun")
try:
    os.makedirs(w + "/m"); shutil.copy("/verif/tools/mutate/main.go.txt", w + "/m/main.go")
    subprocess.run(["go", "build", "-o", w + "/mutate", w + "/m/main.go"], env=dict(ENV, GOFLAGS=""), check=True, cwd=w)
    ms = [json.loads(l) for l in subprocess.run([w + "/mutate"] + files, stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    src = {f: open(f, errors="replace").read().splitlines() for f in files}
    ms = [m for m in ms if not any(x in src[m["file"]][m["line"]-1] for x in ("make(", "log."))]  # capacities and messages
    random.seed(seed); random.shuffle(ms); ms = ms[:n]
    shutil.copytree("/verif", w + "/verif", ignore=shutil.ignore_patterns(".build", "replays", "evidence", ".git", "seeded"))
    def prep(i):
        m = ms[i]; r = f"{w}/r{i}"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = m["file"].replace("/repo", r); b = open(p, "rb").read()
        b = b[:m["off"]] + m["repl"].encode() + b[m["end"]:]
        open(p, "wb").write(b)
        m["src"] = b.decode(errors="replace").splitlines()[m["line"]-1].strip()
        if subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            shutil.rmtree(r); return "build"
        try:
            if subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=r, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode:
                shutil.rmtree(r); return "tests"
        except subprocess.TimeoutExpired:
            shutil.rmtree(r); return "tests"
        return "ok"
    with cf.ThreadPoolExecutor(4) as ex: st = list(ex.map(prep, range(len(ms))))
    ok = [i for i in range(len(ms)) if st[i] == "ok"]
    print(f"{len(ms)} mutants, {st.count('build')} do not build, {st.count('tests')} killed by tests, {len(ok)} left", flush=True)
    killed = 0
    for i in ok:
        m = ms[i]; by = None
        for c in checks(m["file"]):
            try:
                q = subprocess.run(["bash", w + "/verif/check.sh", c, "quick"], env=dict(os.environ, VERIF_REPO=f"{w}/r{i}", VERIF_FRACTION=frac), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                by = c + " TIMEOUT"; break
            if q.returncode == 1: by = c; break
            if q.returncode == 2: by = c + " rc2 " + q.stderr[-300:]; print("RC2", m["file"], m["line"], m["what"], by, flush=True); break
        shutil.rmtree(f"{w}/r{i}")
        if by: killed += 1
        else: print("SURVIVED", m["file"], m["line"], m["what"], "|", m["src"][:140], flush=True)
    print(f"killed {killed} of {len(ok)}")
finally:
    shutil.rmtree(w, ignore_errors=True)
