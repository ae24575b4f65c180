"""mutate.py FILE FROM TO CHECK.. [-n N] [-j J]: line mutations of FILE (relative to
/repo) between two lines; prints the ones no check reports.  Scratch copies in /tmp/mm*."""
import os, re, subprocess, sys, random, shutil
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
N, J = 60, 7
if "-n" in args:
    i = args.index("-n"); N = int(args[i + 1]); del args[i:i + 2]
if "-j" in args:
    i = args.index("-j"); J = int(args[i + 1]); del args[i:i + 2]
f, a, b, checks = args[0], int(args[1]), int(args[2]), args[3:]
src = open("/repo/" + f).read().split("\n")
b = min(b, len(src))
SUB = [(r"==", "!="), (r"!=", "=="), (r"(?<![<>\-=])<(?![<=\w])", "<="), (r" > ", " >= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+\+", "--"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\bdir\b", "0"), (r"\bbegin\b", "end"), (r"\bempty\b", "full"), (r"\bfull\b", "empty"), (r"!(?=\w)", ""),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfirst\b", "second"), (r"\bif \(", "if (!"), (r"\+=", "-="), (r"\bor\b", "and"), (r"\band\b", "or"), (r"\bnot ", ""), (r" < ", " <= "), (r" <= ", " < "), (r"\bis not\b", "is"), (r"\+ ", "- ")]
muts = []
py = f.endswith(".py")
for k in range(a - 1, b):
    l = src[k]
    c = l.split("//")[0] if not py else l.split("#")[0]
    if not c.strip() or c.strip().startswith(("*", "#", "assert", "template", "//", '"""', "import", "from", "raise", "static_assert")) or "assert(" in c:
        continue
    for p, r in SUB:
        for m in re.finditer(p, c):
            muts.append((k, l[: m.start()] + re.sub(p, r, m.group(0)) + l[m.end():]))
    if re.match(r"^\s*[\w.:>\-()\[\], *+&<]+;\s*$", c) and "return" not in c and not re.match(r"^\s*(const |auto |[\w:<>]+ \w+\b)", c):
        muts.append((k, re.match(r"^\s*", l).group(0) + ";"))
    elif py and re.match(r"^\s+[\w.\[\], ]+ ?(=|\+=|\()", c) and c.rstrip().endswith((")", "]")) and c.count("(") == c.count(")"):
        muts.append((k, re.match(r"^\s*", l).group(0) + "pass"))
random.Random(1).shuffle(muts)
muts = sorted(muts[:N])
dirs = []
for j in range(J):
    d = "/tmp/mm%d" % j
    subprocess.run(["git", "clone", "-q", "/repo", d] if not os.path.exists(d) else ["git", "-C", d, "checkout", "-q", "-f", "--", "."], check=True)
    subprocess.run(["git", "-C", d, "fetch", "-q"], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(["git", "-C", d, "checkout", "-q", "-f", h], check=True)
    dirs.append(d)
import queue
Q = queue.Queue()
for d in dirs:
    Q.put(d)


def one(m):
    d = Q.get()
    try:
        k, new = m
        t = list(src); t[k] = new
        open(d + "/" + f, "w").write("\n".join(t))
        if py:
            p = subprocess.run(["python3", "-m", "py_compile", d + "/" + f], capture_output=True)
            if p.returncode:
                return m, "nocompile", ""
        res = []
        for c in checks:
            p = subprocess.run(["python3-vt", "/verif/check.py", c], env=dict(os.environ, QV_REPO=d, QV_EVID="/tmp/mm_ev"), capture_output=True, text=True, timeout=900)
            res.append(p.returncode)
            out = p.stdout
            if p.returncode == 1:
                break
        return m, ("caught" if 1 in res else "broken" if 2 in res else "missed"), out.strip().split("\n")[-1][:100]
    except subprocess.TimeoutExpired:
        return m, "timeout", ""
    finally:
        Q.put(d)


with ThreadPoolExecutor(J) as ex:
    rs = list(ex.map(one, muts))
tot = {}
for m, v, o in rs:
    tot[v] = tot.get(v, 0) + 1
    if v in ("missed", "broken", "timeout"):
        print("%-7s %4d  %s\n              %s   [%s]" % (v, m[0] + 1, src[m[0]].strip()[:110], m[1].strip()[:110], o))
print(tot)
