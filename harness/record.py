"""Record histories of the real program in parallel.

The program runs as an unprivileged user whose only files are in a scratch
directory.
"""
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
NOBODY = 65534
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("ZIELEN_REPO", "/repo")


def scratch_dir():
    top = "/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"
    path = tempfile.mkdtemp(prefix="vz-", dir=top)
    os.chmod(path, 0o755)
    return path


def stage(path):
    """Copy the code under test, with the metadata that it looks up."""
    top = os.path.join(path, "src")
    shutil.copytree(
        os.path.join(REPO, "zielen"), os.path.join(top, "zielen"),
        ignore=shutil.ignore_patterns("__pycache__"))
    info = os.path.join(top, "zielen-0.1.dist-info")
    os.makedirs(info)
    with open(os.path.join(info, "METADATA"), "w") as file:
        file.write("Metadata-Version: 2.1\nName: zielen\nVersion: 0.1\n")
    return top


def drop(home):
    """Become the unprivileged user."""
    os.environ["HOME"] = home
    os.environ["XDG_CONFIG_HOME"] = os.path.join(home, "none")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0:
        raise RuntimeError("the program must not run as root")


def load(src):
    warnings.filterwarnings("ignore")
    sys.path.insert(0, src)
    # Only the daemon needs this.
    sys.modules.setdefault("pyinotify", types.ModuleType("pyinotify"))
    import zielen.cli


def worker(jobs, top, number, out):
    """Record some of the histories."""
    home = os.path.join(top, "w%d" % number)
    drop(home)
    load(os.path.join(top, "src"))
    import jobs as job_kinds
    with open(out, "w") as file:
        for job in jobs:
            root = os.path.join(home, "j%d" % job["n"])
            os.makedirs(root)
            rng = random.Random("%s/%s/%s" % (
                job["seed"], job["kind"], job["n"]))
            tag = "v%dw%d" % (os.getppid(), number)
            try:
                result = job_kinds.run(job, root, tag, rng)
            except Exception:
                result = {"error": traceback.format_exc()}
            for part in result.get("results", [result]):
                part["job"] = job
                file.write(json.dumps(part) + "\n")
            file.flush()
            subprocess.run(["chmod", "-R", "u+rwx", root], check=False)
            shutil.rmtree(root, ignore_errors=True)


def main():
    """Usage: record.py TOP NUMBER: read jobs from TOP/jobs-NUMBER.json."""
    top, number = sys.argv[1], int(sys.argv[2])
    with open(os.path.join(top, "jobs-%d.json" % number)) as file:
        jobs = json.load(file)
    out = os.path.join(top, "w%d" % number, "out.jsonl")
    sys.path.insert(0, HERE)
    worker(jobs, top, number, out)


def record(jobs, workers=8, timeout=800):
    """Record histories and get the results in order."""
    top = scratch_dir()
    try:
        stage(top)
        subprocess.run(
            ["gcc", "-shared", "-fPIC", "-O1", "-w", "-o",
             os.path.join(top, "fault.so"),
             os.path.join(os.path.dirname(HERE), "shim", "fault.c"), "-ldl"],
            check=True)
        for path, dirs, files in os.walk(top):
            os.chmod(path, 0o755)
            for name in files:
                os.chmod(os.path.join(path, name), 0o644)
        # The harness must be readable by the unprivileged user.
        shutil.copytree(HERE, os.path.join(top, "harness"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        for path, dirs, files in os.walk(os.path.join(top, "harness")):
            os.chmod(path, 0o755)
            for name in files:
                os.chmod(os.path.join(path, name), 0o644)
        procs = []
        for i in range(workers):
            home = os.path.join(top, "w%d" % i)
            os.makedirs(home)
            if os.getuid() == 0:
                os.chown(home, NOBODY, NOBODY)
            with open(os.path.join(top, "jobs-%d.json" % i), "w") as file:
                json.dump(jobs[i::workers], file)
            procs.append(subprocess.Popen(
                [PYTHON, "-W", "ignore", os.path.join(
                    top, "harness", "record.py"), top, str(i)],
                stdin=subprocess.DEVNULL,
                stderr=open(os.path.join(top, "err%d" % i), "w"),
                cwd=top, start_new_session=True,
                env=dict(os.environ, LD_PRELOAD=os.path.join(
                    top, "fault.so"))))
        for proc in procs:
            try:
                proc.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
        results = []
        for i in range(workers):
            path = os.path.join(top, "w%d" % i, "out.jsonl")
            if os.path.exists(path):
                with open(path) as file:
                    for line in file:
                        try:
                            results.append(json.loads(line))
                        except ValueError:
                            pass
            if procs[i].returncode:
                with open(os.path.join(top, "err%d" % i)) as file:
                    sys.stderr.write(file.read()[-2000:])
        results.sort(key=lambda x: x["job"]["n"])
        return results
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", top], check=False)
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
