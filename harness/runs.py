"""What a worker does with one work item."""
import subprocess


def _finish(world, impl):
    world.close()
    subprocess.Popen = impl.REAL_POPEN


def run_history(item, scratch, impl, gen):
    """Random history (item has seed, prof) or scripted one (item has ops)."""
    world = impl.World(scratch, "w%s" % item["n"])
    subprocess.Popen = impl.StubPopen
    steps = []
    hung = None
    tracked = False
    try:
        if "ops" in item:
            ops = item["ops"]
            tracked = item.get("tracked", any(o["k"] == "mountdir" for o in ops))
            for j, op in enumerate(ops):
                look = (not tracked and j >= item.get("from", 0)) or j == len(ops) - 1
                try:
                    steps.append(world.step(op, look))
                except impl.Hang:
                    hung = op
                    break
        else:
            g = gen.Gen(item["seed"], item["prof"], item.get("canon", False))
            setup = g.setup()
            tracked = any(o["k"] == "mountdir" for o in setup)
            n = g.rng.randint(*item["prof"].get("len", (6, 14)))
            for j in range(len(setup) + n):
                op = setup[j] if j < len(setup) else g.op()
                last = j == len(setup) + n - 1
                look = (not tracked and j >= len(setup) - 1) or last
                try:
                    steps.append(world.step(op, look))
                except impl.Hang:
                    hung = op
                    break
                g.see(steps[-1]["obs"])
                if tracked and op["k"] in ("write", "mkdir", "touch", "copy", "move"):
                    g.extra.append(tuple(impl.names(op.get("p2") or op["p"])))
    finally:
        _finish(world, impl)
    return {"id": item["n"], "steps": steps, "hung": hung}


def one(item, scratch, impl, gen):
    kind = item.get("kind", "history")
    if kind == "history":
        return run_history(item, scratch, impl, gen)
    import importlib
    return importlib.import_module("runs_" + kind).one(item, scratch, impl, gen)
