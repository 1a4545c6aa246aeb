"""Refreshes the generated tables of DESIGN.md (defects and planted bugs) between their markers."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(text, name, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + "\n" + m.group(2), text, flags=re.S)


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    lines = [l.strip() for l in open(os.path.join(ROOT, "known_findings.jsonl")) if l.startswith("fixed:")]
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for l in lines:
        _, p, c, what = l.split(" ", 3)
        rows.append("| %s | %s | %s |" % (p.split("=")[1], c, what.replace("|", "\\|")))
    text = put(text, "fixes", "%d defects:\n\n" % len(lines) + "\n".join(rows))
    rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
    late = json.load(open(os.path.join(ROOT, "tools", "late.json")))
    n = 0
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        n += 1
        rows.append("| %s | %s%s | %s | %s |" % (d, m["property"], " (first missed: %s)" % late[d] if d in late else "", m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
    text = put(text, "seeded", "%d planted bugs:\n\n" % n + "\n".join(rows))
    open(path, "w").write(text)


if __name__ == "__main__":
    main()
