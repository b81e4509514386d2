"""Run TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")


class Failed(Exception):
    """TLC didn't do what it was told."""


def scratch():
    top = "/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"
    return tempfile.mkdtemp(prefix="vt-", dir=top)


def run(module, config=None, env=None, args=(), timeout=600, heap="6g",
        workers=8, files=None):
    """Run TLC on a module of the specification in a copy of it."""
    top = scratch()
    try:
        for name in os.listdir(SPEC):
            if name.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, name), top)
        for name, text in (files or {}).items():
            with open(os.path.join(top, name), "w") as file:
                file.write(text)
        start = time.time()
        proc = subprocess.run(
            ["tlc", "-workers", str(workers), "-metadir", os.path.join(top, "meta"),
             "-config", config or module + ".cfg", *args, module + ".tla"],
            cwd=top, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, timeout=timeout,
            env=dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s -Xss64m" % heap,
                     **(env or {})))
        out = proc.stdout
        found = re.findall(
            r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", out)
        states = (int(found[-1][0].replace(",", "")) if found else 0,
                  int(found[-1][1].replace(",", "")) if found else 0)
        return {"out": out, "rc": proc.returncode, "generated": states[0],
                "distinct": states[1], "wall": time.time() - start}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def validate(traces, wanted, module="ZielenTrace", batch=1200, timeout=600):
    """Check recorded executions.

    Returns:
        The failures, and how many states there were.
    """
    failures = []
    states = steps = 0
    top = scratch()
    try:
        for n in range(0, len(traces), batch):
            part = traces[n:n + batch]
            path = os.path.join(top, "batch.json")
            with open(path, "w") as file:
                json.dump({"traces": part, "wanted": wanted}, file)
            result = run(module, env={"TRACES": path}, timeout=timeout)
            out = result["out"]
            expected = sum(len(t["ev"]) for t in part) + len(part)
            if ("No error has been found" not in out
                    or result["distinct"] != expected):
                raise Failed("%d of %d states\n%s" % (
                    result["distinct"], expected, out[-6000:]))
            states += result["distinct"]
            steps += expected - len(part)
            flat = re.sub(r"\s+", " ", out)
            for m in re.finditer(
                    r'<< ?"FAIL", "(\w+)", "(\w+)", "([^"]*)", (\d+), '
                    r'(.*?) ?>> ?(?=<<|Progress|Model|$)', flat):
                failures.append({
                    "property": m.group(1), "clause": m.group(2),
                    "trace": m.group(3), "event": int(m.group(4)),
                    "what": m.group(5)[:400]})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return failures, states, steps
