"""Developer tool: seeds that change no line of the original repository."""
import glob, os, re, subprocess
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
blame = {}


def own(path):
    if path not in blame:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", path], capture_output=True, text=True, errors="replace").stdout.splitlines()
        blame[path] = [not (l.startswith("^")) for l in out]
    return blame[path]


for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    path, n, ok = None, 0, 0
    for l in open(d, errors="replace", newline="").read().split("\n"):
        if l.startswith("+++ b/"):
            path = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("---"):
            continue
        elif l.startswith("-"):
            ok += not own(path)[n - 1]
            n += 1
        elif l.startswith(" "):
            n += 1
    if not ok:
        print(os.path.basename(os.path.dirname(d)))
