"""Worker process: drops its privileges, then runs histories against the real code."""
import json
import os
import signal
import sys

sys.dont_write_bytecode = True


def drop(uid, gid):
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(gid)
        os.setuid(uid)


def main():
    job_file, out_file, scratch = sys.argv[1:4]
    with open(job_file) as f:
        job = json.load(f)
    out = open(out_file, "w")
    drop(65534, 65534)
    os.chdir(scratch)
    os.umask(0o022)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("SANDFS_REPO", "/repo")     # a scratch copy while developing the checks
    sys.path.insert(0, repo)
    os.environ["HOME"] = scratch
    import impl
    import gen
    import runs

    def on_alarm(sig, frame):
        raise impl.Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    import sandfs  # noqa: F401
    import sandfs.exceptions  # noqa: F401
    import sandfs.cli  # noqa: F401
    assert os.path.realpath(sandfs.__file__).startswith(repo + "/"), sandfs.__file__
    impl.install(scratch)
    for item in job["items"]:
        rec = runs.one(item, scratch, impl, gen)
        out.write(json.dumps(rec, ensure_ascii=True) + "\n")
    out.close()


main()
