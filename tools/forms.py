#!/usr/bin/env python3
"""forms.py TLC-OUTPUT FORMS.rs: the written forms of the model, as Rust source."""
import json, re, sys


def forms(out, dest):
    ids, text, byts, table = {}, [], [], []
    for line in open(out, errors="replace"):
        if not line.startswith('"[\\"F\\"'):
            continue
        _, g, k, isb, src = json.loads(json.loads(line))
        src = re.sub(r"\\u([0-9a-f]{4})", lambda m: chr(int(m.group(1), 16)), src)
        key = (isb, src)
        if key not in ids:
            ids[key] = len(ids)
            (byts if isb else text).append((ids[key], src))
        table.append((g, k, ids[key]))
    with open(dest, "w") as f:
        f.write("pub fn form(g: i64, k: i64) -> usize { match (g, k) {\n")
        for g, k, i in table:
            f.write("(%d, %d) => %d,\n" % (g, k, i))
        f.write("_ => unreachable!() } }\n")
        for name, ty, fs in (("text", "str", text), ("bytes", "[u8]", byts)):
            f.write("pub fn run_%s(i: usize, s: &%s) -> Got { match i {\n" % (name, ty))
            for i, src in fs:
                f.write("%d => %s(%s, s),\n" % (i, name, src))
            f.write("_ => unreachable!() } }\n")
        f.write("pub const SRC: &[&str] = &[\n")
        for (isb, src) in sorted(ids, key=lambda x: ids[x]):
            f.write("r####\"%s\"####,\n" % src)
        f.write("];\n")
    return len(ids)


if __name__ == "__main__":
    print(forms(sys.argv[1], sys.argv[2]))
