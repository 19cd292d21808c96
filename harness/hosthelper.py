"""What a host command does in the copy it runs in: says what it was given, then changes the copy.

Used by the stand-in for host commands and, as a program, by the runs with real processes."""
import json
import os
import shutil
import sys


def names(path):
    return [c for c in str(path).split("/") if c not in ("", ".")]


def listing(root):
    out = []
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        pre = "" if rel == "." else rel + "/"
        out += ["d " + pre + d for d in dirs]
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out.append("f " + pre + f + " " + h.read().decode("utf-8", "replace"))
    return out


def edit(root, what, p, text):
    comps = names(p)
    if not comps:
        return
    full = os.path.join(root, *comps)

    def chain(parts):
        cur = root
        for c in parts:
            cur = os.path.join(cur, c)
            if os.path.isfile(cur):
                os.unlink(cur)
            if not os.path.isdir(cur):
                os.mkdir(cur)

    if what == "put":
        chain(comps[:-1])
        if os.path.isdir(full):
            shutil.rmtree(full)
        with open(full, "wb") as h:
            h.write(text.encode("utf-8"))
    elif what == "dir":
        chain(comps)
    elif what == "del":
        if os.path.isdir(full):
            shutil.rmtree(full)
        elif os.path.exists(full):
            os.unlink(full)
    elif what == "mv":
        to = os.path.join(root, *names(text))
        if os.path.exists(full) and not os.path.exists(to) and os.path.isdir(os.path.dirname(to)) and not (to + "/").startswith(full + "/"):
            os.rename(full, to)


def command(op, target, tmp, args, cwd, env, given):
    """Rows describing what the command saw; then its edits.  target: the sandbox directory it was asked to run in."""
    cwd = os.path.realpath(cwd)
    want = names(target)
    here = names(cwd)
    if here[len(here) - len(want):] == want:
        root = "/" + "/".join(here[:len(here) - len(want)])
        rows = ["cwd /" + "/".join(want)]
    else:
        root = os.path.join(tmp, os.path.relpath(cwd, tmp).split("/")[0])
        rows = ["cwd ?" + os.path.relpath(cwd, root)]
    if os.path.commonpath([root, tmp]) != tmp:
        return rows + ["!outside " + root]
    rows.append("in " + (given or ""))
    rows += [f"arg {i} {a.replace(root, 'ROOT')}" for i, a in enumerate(args, 1)]
    if env is not None and "PATH" not in env:
        rows.append("!env")
    if op["via"] != "ls":
        rows += [f"env {k}={str((env or {}).get(k, '')).replace('outside', '')}" for k in ("V", "N")]   # what the embedding process has set is there, too
    rows += [r[:2] + "/" + r[2:] for r in listing(root)]
    for what, p, text in op["edits"]:
        edit(root, what, p, text)
    return rows


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        job = json.load(f)
    rows = command(job["op"], job["target"], job["tmp"], sys.argv[2:], os.getcwd(), dict(os.environ), sys.stdin.read())
    with open(sys.argv[1] + ".out", "w") as f:
        json.dump(rows, f)
    sys.stdout.flush()
    os.write(1, job["op"]["say"].encode("utf-8").replace(b"\xef\xbf\xbd", b"\xff"))
    os.write(2, b"e")
    sys.exit(job["op"]["code"])
