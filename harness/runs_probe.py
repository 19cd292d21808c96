"""Small programs that show a known finding on the real code."""
import os


def one(item, scratch, impl, gen):
    import sandfs
    got = False
    try:
        got = globals()[item["id"]](sandfs, os.path.join(scratch, "probe"))
    except Exception:
        got = False
    return {"id": item["n"], "reproduces": bool(got)}


def KF1(sf, d):
    a = sf.MemoryStorageAdapter(initial={"a": "1"})
    v = sf.VirtualFileSystem()
    v.mount_storage("/m", a)
    v.move("/m/a", "/m/b")
    v.copy("/m/b", "/m/c")
    v.touch("/m/t")
    return sorted(a.list()) == ["a"]


def KF2(sf, d):
    v = sf.VirtualFileSystem()
    v.write_file("/f", "1")
    seen = []
    v.register_write_hook("/", lambda e: seen.append(e))
    v.register_path_hook("/", lambda e: seen.append(e))
    v.touch("/n")
    v.copy("/f", "/g")
    v.move("/f", "/h")
    return not seen


def KF3(sf, d):
    a = sf.FileSystemAdapter(d)
    v = sf.VirtualFileSystem()
    v.mount_storage("/m", a)
    with open(os.path.join(d, "k"), "w") as f:
        f.write("foreign")
    v.write_file("/m/k", "mine")
    with open(os.path.join(d, "k")) as f:
        return f.read() == "mine"
