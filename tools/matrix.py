"""Prints the table of planted bugs for DESIGN.md (run by hand)."""
import collections
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    by = collections.defaultdict(list)
    for name in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        with open(os.path.join(VERIF, "seeded", name, "meta.json")) as f:
            by[json.load(f)["property"]].append(name.split("-", 1)[1])
    for ident in sorted(by):
        print("- %s: %s" % (ident, ", ".join(by[ident])))


if __name__ == "__main__":
    main()
