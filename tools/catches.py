"""tools/catches.py: writes the list of planted changes into DESIGN.md"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START, END = "<!-- planted -->\n", "<!-- /planted -->\n"


def main():
    found = {}
    for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", name, "meta.json")) as file:
            meta = json.load(file)
        found.setdefault(meta["property"], []).append((name, meta["needs"]))
    lines = ["| property | change: what it needs to show |\n", "|---|---|\n"]
    for pid in sorted(found):
        for name, needs in found[pid]:
            lines.append("| %s | %s: %s |\n" % (pid, name, needs.replace("|", "/")))
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as file:
        text = file.read()
    head, rest = text.split(START)
    tail = rest.split(END)[1]
    with open(path, "w") as file:
        file.write(head + START + "\n" + "".join(lines) + "\n" + END + tail)


if __name__ == "__main__":
    main()
