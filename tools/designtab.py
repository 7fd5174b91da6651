"""Writes the generated lists of DESIGN.md (defects, planted bugs) between their markers."""
import glob, json, os, re

R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")


def block(text, name, body):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]


def main():
    p = os.path.join(R, "DESIGN.md")
    s = open(p).read()
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    n = 0
    for x in open(os.path.join(R, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
        if m:
            n += 1
            rows.append("| %s | %s | %s |" % m.groups())
    s = block(s, "defects", "%d defects:\n\n" % n + "\n".join(rows))
    rows = ["| planted bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        one = lambda t: " ".join(t.split()).replace("|", "/")
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], one(m["what_it_breaks"]), one(m["needs"])))
    s = block(s, "planted", "\n".join(rows))
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
