"""Writes spec/chars.json: facts about the characters the drivers use (Unicode database, not sandfs)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
chars = [chr(c) for c in range(1, 0x100)] + list("ŁłΩωßЖж€→\u2028\u2029└─├│漢字\u00a0ēĒ…–“”\ufeff")
chars = sorted(set(chars))
code = {c: ord(c) for c in chars}
lower = {c: c.lower() for c in chars if c.lower() != c and len(c.lower()) == 1}
u8 = {c: len(c.encode()) for c in chars if len(c.encode()) != 1}
brk = [c for c in chars if len(("a" + c + "b").splitlines()) == 2]
word = [c for c in chars if c == "_" or c.isalnum()]
space = [c for c in chars if c.isspace()]
hexa = {}
for i in range(1, 128):
    for f in ("%02x", "%02X"):
        hexa[f % i] = chr(i)
tree = ["└──", "├──", "│   "]
out = {"code": code, "lower": lower, "u8": u8, "brk": brk, "word": word, "space": space, "hex": hexa, "tree": tree,
       "alnum": [c for c in chars if c.isascii() and c.isalnum()]}
with open(os.path.join(here, "..", "spec", "chars.json"), "w") as f:
    json.dump(out, f, ensure_ascii=True, indent=0)
    f.write("\n")
