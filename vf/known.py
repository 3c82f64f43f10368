"""Reads KNOWN_FINDINGS.txt.  Only lines starting with `known:` excuse
anything, and only the check they name, for the key they name."""
import os
import re

from . import boot


def entries(pid):
    out = {}
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    with open(path) as file:
        for line in file:
            match = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if match and match.group(1) == pid:
                out[match.group(2)] = match.group(3)
    return out
