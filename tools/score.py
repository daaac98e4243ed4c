#!/usr/bin/env python3
"""tools/score.py [-a] [-d DIR] [NAME...]: runs the planted changes under
seeded/ (all, or those whose name starts with a NAME) against the check of
their property (-a: against every check), and prints which were reported.

Works on copies of /repo and of this directory, below DIR (default
/tmp/mofmt-score), which is kept for the next run: remove it when done."""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
work = args[args.index("-d") + 1] if "-d" in args else "/tmp/mofmt-score"
names = [a for i, a in enumerate(args) if a not in ("-a", "-d") and (i == 0 or args[i - 1] != "-d")]
checks = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
verif, repo = work + "/verif", work + "/repo"


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


os.makedirs(verif, exist_ok=True)
if not os.path.isdir(repo):
    run("git", "clone", "-q", "/repo", repo, check=True)
run("git", "fetch", "-q", "/repo", "HEAD", cwd=repo, check=True)
run("git", "reset", "-q", "--hard", "FETCH_HEAD", cwd=repo, check=True)
for d in ("harness", "treecheck"):
    shutil.rmtree(f"{verif}/{d}", ignore_errors=True)
    shutil.copytree(f"{HERE}/{d}", f"{verif}/{d}")
    p = f"{verif}/{d}/Cargo.toml"
    text = open(p).read()
    assert '"/repo"' in text
    open(p, "w").write(text.replace('"/repo"', f'"{repo}"'))
text = open(HERE + "/check.sh").read()
assert "REPO=/repo\n" in text
open(verif + "/check.sh", "w").write(text.replace("REPO=/repo\n", f"REPO={repo}\n"))
os.chmod(verif + "/check.sh", 0o755)
shutil.copy(HERE + "/KNOWN_FINDINGS.txt", verif)
# Copied files are older than what was built from the previous ones
run("bash", "-c", f"find {verif}/harness {verif}/treecheck -type f | xargs touch")

total = caught = 0
for d in sorted(os.listdir(HERE + "/seeded")):
    if names and not any(d.startswith(n) for n in names):
        continue
    own = json.load(open(f"{HERE}/seeded/{d}/meta.json"))["property"]
    r = run("git", "-C", repo, "apply", f"{HERE}/seeded/{d}/patch.diff")
    if r.returncode:
        print(f"{d}: does not apply: {r.stderr}")
        continue
    out = []
    for c in ([own] + [x for x in checks if x != own]) if every else [own]:
        start = time.time()
        p = run(verif + "/check.sh", c, cwd=verif)
        hit = f"VIOLATION property={c} " in p.stdout
        if c == own:
            total += 1
            caught += hit and p.returncode == 1
            odd = "" if p.returncode in (0, 1) else f" EXIT {p.returncode} {p.stderr[-300:]}"
            out.append(f"{c}:{'caught' if hit else 'MISSED'} ({time.time() - start:.0f} s){odd}")
        elif hit:
            out.append(c)
        elif p.returncode:
            out.append(f"{c}:EXIT {p.returncode}")
    print(f"{d}: {' '.join(out)}", flush=True)
    run("git", "-C", repo, "checkout", "-q", "--", ".")
print(f"{caught} of {total} caught by the check of their property")
