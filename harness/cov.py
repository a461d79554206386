"""Line and branch coverage of the library by the executed sessions (tools/linecov.py; off unless RIGEO_COV names a directory)."""
import atexit
import json
import os
import sys

M = sys.monitoring
LINES, BRANCH = set(), set()


def install(outdir):
    M.use_tool_id(M.COVERAGE_ID, "rigeo-cov")

    def mine(code):
        return f"{os.sep}rigeo{os.sep}" in code.co_filename and "site-packages" not in code.co_filename

    def line(code, no):
        if mine(code):
            LINES.add((code.co_filename, no))
        return M.DISABLE

    def branch(code, src, dst):
        if mine(code):
            pos = {s: l for s, e, l in code.co_lines() for s in range(s, e)}
            BRANCH.add((code.co_filename, code.co_qualname, pos.get(src), src, pos.get(dst), dst))
            return None
        return M.DISABLE

    M.register_callback(M.COVERAGE_ID, M.events.LINE, line)
    M.register_callback(M.COVERAGE_ID, M.events.BRANCH, branch)
    M.set_events(M.COVERAGE_ID, M.events.LINE | M.events.BRANCH)

    def dump():
        with open(os.path.join(outdir, f"{os.getpid()}.json"), "w") as f:
            json.dump([sorted(LINES), sorted(BRANCH, key=str)], f)
    atexit.register(dump)
