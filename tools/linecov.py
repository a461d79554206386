"""Which lines and branches of the library no session of any check ever executes.

usage: linecov.py DIR     (after running the checks with RIGEO_COV=DIR)
"""
import ast, glob, json, os, sys
lines, br = set(), {}
for f in glob.glob(os.path.join(sys.argv[1], "*.json")):
    L, B = json.load(open(f))
    lines |= {tuple(x) for x in L}
    for fn, q, sl, so, dl, do in B:
        br.setdefault((fn, q, sl, so), set()).add(dl)
root = os.environ.get("RIGEO_SRC", "/repo/src") + "/rigeo"
for dp, _, fs in sorted(os.walk(root)):
    if "unused" in dp:
        continue
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(dp, f)
        src = open(p).read()
        code = compile(src, p, "exec")
        want = set()
        st = [code]
        while st:
            c = st.pop()
            want |= {l for _, _, l in c.co_lines() if l}
            st += [k for k in c.co_consts if hasattr(k, "co_code")]
        miss = sorted(want - {l for q, l in lines if q == p})
        text = src.split("\n")
        for l in miss:
            if text[l - 1].strip() and not text[l-1].strip().startswith('"""'):
                print("line  ", os.path.relpath(p, root), l, text[l - 1].strip())
        for (fn, q, sl, so), d in sorted(br.items(), key=str):
            if fn == p and len(d) == 1 and sl:
                print("branch", os.path.relpath(p, root), sl, "always to", list(d)[0], ":", text[sl - 1].strip())
