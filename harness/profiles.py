"""Which situations and operations the random histories of each property concentrate on."""

TREE = {"write": 5, "append": 3, "mkdir": 3, "touch": 2, "remove": 3, "move": 4, "copy": 4, "cd": 2, "read": 3, "query": 4}


def mk(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


PLAIN = {"ops": TREE, "spell": 0.25}

PROFILES = {
    "C01": [
        mk(PLAIN, ops=mk(TREE, sh=14, search=2, snap=1, restore=1), shells=(1, 2), spell=0.6, names=14, index=.3, sview=.4,
           shell={"view": .2, "allow": .05, "lim": .05, "fb": 0.0}, lines=["pipe", "list", "change", "assign", "weird"]),
        mk(PLAIN, ops=mk(TREE, sh=8, sync=2, extw=2, setpol=1), shells=(1, 1), mem=(1, 2), fs=.6, spell=.5, names=14),
    ],
    "C02": [
        mk(PLAIN, spell=.9, pp=.3, ops=mk(TREE, cd=6, query=8, move=6), deep=4, dirs=(2, 5)),
        mk(PLAIN, spell=.9, ops=mk(TREE, sh=10, search=4, cd=5, sync=1, setpol=1, hook=1), shells=(1, 1), mem=(0, 1),
           index=.4, dirs=(2, 5), deep=4),
    ],
    "C03": [
        mk(PLAIN), mk(PLAIN, deep=5, dirs=(2, 6), names=4), mk(PLAIN, names=3, mds=(0, 3), policies=(0, 2),
                                                             pol={"r": .05, "w": .1, "a": .1, "cls": .5, "pr": .3}),
        mk(PLAIN, names=4, ops=mk(TREE, sh_change=6, snap=1, restore=1, sync=1), shells=(1, 1), mem=(0, 1)),
    ],
    "C04": [
        mk(PLAIN, ops=mk(TREE, arm=4, extw=3, extd=1, sync=2, mountmore=1), mem=(1, 2), ver=.5, policies=(0, 2), hooks=(0, 3), names=4, fs=.3,
           index=.2),
        mk(PLAIN, ver=.4, policies=(1, 4), names=4, hooks=(0, 2), ops=mk(TREE, provset=2, mountfile=1, search=1), prov=(0, 2), index=.3),
        mk(PLAIN, ops=mk(TREE, dprovset=2, remountdir=1), lazy=(1, 2), prov=(0, 1), len=(2, 6)),
    ],
    "C05": [
        mk(PLAIN, policies=(2, 5), names=4, pol={"r": .05, "w": .45, "a": .35, "cls": .1, "pr": .05}, ops=mk(TREE, setpol=1)),
        mk(PLAIN, policies=(2, 5), names=4, pol={"r": .05, "w": .45, "a": .35, "cls": .1, "pr": .05},
           ops=mk(TREE, sh_change=10, sh=4, setpol=1, pokepol=1), shells=(1, 1)),
        mk(PLAIN, policies=(2, 5), names=4, pol={"w": .45, "a": .35}, mem=(1, 2), mountpol=.5,
           ops=mk(TREE, sync=2, extw=1, arm=1, snap=1, restore=1), prov=(0, 1), hooks=(0, 1)),
    ],
    "C06": [
        mk(PLAIN, policies=(2, 4), pol={"r": .6, "w": .05, "a": .05}, index=.5, sview=.5, shells=(1, 2),
           ops=mk(TREE, read=4, search=5, sh_read=10, sh=4, pokepol=4, setpol=2, write=5), names=5),
        mk(PLAIN, policies=(2, 4), pol={"r": .6, "w": .05, "a": .05}, index=.4, mem=(0, 1), prov=(0, 1), shells=(1, 1),
           ops=mk(TREE, search=4, sh_list=8, pokepol=3, copy=6, cd=4, query=6, sync=1), names=5),
    ],
    "C07": [
        mk(PLAIN, policies=(2, 5), pol={"r": .05, "w": .02, "a": .02, "cls": .7, "pr": .3}, mds=(1, 4), index=.4, sview=.5,
           shells=(1, 3), shell={"view": 1.0}, ops={"sh_read": 10, "sh_list": 10, "write": 3, "query": 3, "search": 3, "cd": 2,
                                                    "setpol": 1, "move": 1, "pokemd": 1}, apiview=.8, names=5, dirs=(2, 5)),
        mk(PLAIN, policies=(1, 4), pol={"r": .02, "w": .02, "a": .02, "cls": .6, "pr": .2}, mds=(0, 2), index=.3, sview=1.0,
           shells=(2, 3), shell={"view": .9}, svarg=.5, ops={"sh_read": 12, "sh_list": 10, "write": 2, "cd": 2, "sh_change": 2},
           names=5, dirs=(2, 4)),
    ],
    "C08": [
        mk(PLAIN, policies=(2, 5), pol={"r": .02, "w": .05, "a": .02, "cls": .7, "pr": .25}, mds=(0, 3), sview=.3,
           shells=(1, 2), shell={"view": 1.0}, ops={"sh_change": 16, "sh": 4, "sh_list": 3, "setpol": 1, "write": 1}, names=5,
           dirs=(2, 5), lines=["pipe"], redir=.9, sources=["echo", "printf", "cat"]),
    ],
    "C09": [
        mk(PLAIN, ver=.8, names=3, ops=mk(TREE, write=12, append=8, query=6), files=(2, 4), dirs=(0, 2)),
        mk(PLAIN, ver=.7, names=3, ops=mk(TREE, write=10, append=6, sh_change=4, sync=1, extw=1, snap=1, restore=1), shells=(1, 1),
           mem=(0, 1), policies=(0, 1), prov=(0, 1)),
    ],
    "C10": [
        mk(PLAIN, mem=(1, 3), fs=.35, names=4, ops=mk(TREE, write=8, append=4, remove=4, sync=3, extw=3, extd=2, arm=1), spell=.15),
        mk(PLAIN, mem=(1, 3), fs=.35, names=4, ops=mk(TREE, write=8, sh_change=5, sync=3, extw=2, extd=1, snap=1, restore=1), shells=(1, 1),
           hooks=(0, 1), index=.2, mountpol=.2),
    ],
    "C11": [
        mk(PLAIN, mem=(1, 2), fs=.5, names=4, files=(0, 1), ops={"write": 8, "append": 6, "extw": 6, "extd": 1, "sync": 4, "read": 2, "remove": 1,
                                                      "snap": 1, "restore": 1, "sh_change": 2}, shells=(1, 1), ver=.3),
    ],
    "C13": [
        mk(PLAIN, policies=(1, 4), mds=(0, 3), names=5, mem=(0, 2), hooks=(0, 2), index=.4, sview=.3, shells=(0, 1),
           ops=mk(TREE, snap=6, restore=7, setpol=2, pokepol=3, pokemd=3, pokeprin=2, search=2, sync=1, extw=1, sh=2), len=(10, 20)),
        mk(PLAIN, policies=(0, 3), names=4, prov=(0, 1), ops=mk(TREE, snap=5, restore=6, pokepol=2, pokemd=2, provset=1), len=(8, 18)),
    ],
    "C14": [
        mk(PLAIN, hooks=(2, 5), names=4, ops=mk(TREE, write=8, append=5, remove=5, hook=1), ver=.3, policies=(0, 2)),
        mk(PLAIN, hooks=(2, 5), names=4, mem=(0, 1), shells=(1, 1), ops=mk(TREE, write=5, sh_change=5, sh=3, sync=1, extw=1, arm=1, snap=1,
                                                                     restore=1, search=1)),
    ],
    "C15": [
        mk(PLAIN, index=.6, sview=.4, shells=(1, 2), names=5, ops=mk(TREE, search=10, sh_list=8, write=8, append=4),
           shell={"view": .2}, apiview=.2, regex=.35),
        mk(PLAIN, index=.8, mem=(0, 2), names=5, shells=(1, 1), ops=mk(TREE, search=8, sh_list=5, sync=2, extw=2, snap=2, restore=2,
                                                                    setpol=1), sview=.3, regex=.35),
    ],
    "C16": [
        mk(PLAIN, shells=(1, 2), ops={"sh_weird": 10, "sh": 8, "write": 1, "setpol": 1, "mkdir": 1, "cd": 1}, sview=.3, index=.2,
           policies=(0, 3), shell={"view": .2, "allow": .15, "lim": .15, "fb": .2}, lines=["pipe", "change", "list", "weird", "assign"],
           globarg=.12, vararg=.12),
        mk(PLAIN, shells=(1, 1), ops={"sh_weird": 5, "sh": 8, "write": 2, "arm": 2, "provset": 2, "extw": 1}, mem=(1, 1), prov=(1, 2),
           lines=["pipe", "change", "list", "weird"]),
    ],
    "C17": [
        mk(PLAIN, shells=(1, 3), shell={"allow": .7, "lim": .6, "fb": .4, "view": .1},
           ops={"sh": 14, "sh_list": 4, "sh_change": 4, "sh_weird": 2, "write": 2}, lines=["pipe", "pipe", "list", "change", "assign"],
           vararg=.15),
    ],
    "C18": [
        mk(PLAIN, shells=(1, 1), ops={"sh": 14, "write": 2, "cd": 1, "sh_weird": 1}, lines=["pipe", "pipe", "pipe", "assign", "change"],
           files=(3, 6), stageasg=.2, vararg=.2, globarg=.1, names=8, redir=.4),
        mk(PLAIN, shells=(1, 2), ops={"sh": 14, "write": 2, "cd": 1}, lines=["pipe"], files=(3, 6), spell=.1, names=5, redir=.1),
    ],
    "C20": [
        mk(PLAIN, ops=mk(TREE, export=12), names=14, deep=5, dirs=(2, 6)),
        mk(PLAIN, ops=mk(TREE, export=10, provset=1, setpol=1, sync=1), prov=(0, 2), mem=(0, 1), policies=(0, 3), names=14),
    ],
    "C21": [
        mk(PLAIN, prov=(1, 3), names=5, ops=mk(TREE, provset=5, mountfile=2, read=8, append=5, search=1, sh_read=3, snap=1, restore=1, pokemd=2,
                                               move=6), shells=(1, 1)),
        mk(PLAIN, lazy=(1, 2), prov=(0, 2), names=5, len=(1, 7), ops=mk(TREE, dprovset=2, remountdir=2, read=6, query=8, search=1, sh_read=3),
           shells=(1, 1)),
        mk(PLAIN, prov=(1, 2), names=5, mem=(0, 1), hooks=(0, 2), ops=mk(TREE, provset=4, mountfile=1, read=5, append=6, write=4), ver=.3),
    ],
    "C19": [
        mk(PLAIN, ops=mk(TREE, host=20, cd=3, query=1, read=1), shells=(1, 2), shell={"view": 0, "allow": 0, "lim": 0, "fb": .5}, hooks=(0, 2), names=8,
           mds=(0, 2), mem=(0, 1), prov=(0, 1), len=(4, 9)),
        mk(PLAIN, ops={"host": 10, "write": 2, "setpol": 1, "cd": 1}, shells=(1, 1), shell={"view": 0, "allow": 0, "lim": 0, "fb": .5}, hooks=(0, 2),
           policies=(1, 3), pol={"r": .1, "w": .4, "a": .3}, names=6, mem=(0, 1), len=(3, 7)),
        mk(PLAIN, ops={"host": 10, "write": 2}, shells=(1, 1), shell={"view": 0, "allow": 0, "lim": 0, "fb": .5}, names=14, len=(2, 3), real=.7, weight=.12,
           hooks=(0, 1)),
    ],
    "C22": [
        mk(PLAIN, ops=mk(TREE, py=25, sh_read=3, sh_change=3, query=1), shells=(1, 2), shell={"view": 0, "allow": 0, "lim": 0, "fb": 0}, hooks=(0, 2), names=6,
           policies=(0, 2), pol={"r": .3, "w": .3, "a": .2}, mem=(0, 1)),
        mk(PLAIN, ops={"py": 20, "write": 2, "sh_read": 2}, shells=(1, 1), shell={"view": 0, "allow": 0, "lim": 0, "fb": 0}, names=4, len=(4, 10)),
    ],
}
