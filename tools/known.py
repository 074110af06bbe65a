#!/usr/bin/env python3
"""Prints the fixed: lines of KNOWN_FINDINGS.txt from the log of /repo."""
import subprocess
M = {"415118d": "C03", "b02bef1": "C02", "635d9a7": "C06", "0810360": "C06", "9891c6c": "C06", "196ece1": "C07", "7a60b94": "C07", "21ac3d3": "C06",
     "cef60b7": "C10", "e6f083b": "C11", "be05fdf": "C12", "250c284": "C11", "b7c14f9": "C12", "492713a": "C16", "e030e56": "C13", "da2df8c": "C15",
     "d23e644": "C14", "73ca53a": "C14", "2705e36": "C14", "80c45b8": "C17", "8eea3db": "C17", "c01bfd9": "C16", "6701d99": "C18", "ff8480a": "C18",
     "9abf3a1": "C19", "b3da1b5": "C26", "022b4af": "C20", "a471e5b": "C20", "4c3643f": "C15", "34b3c46": "C25", "5ddfca9": "C24", "537fd76": "C24",
     "9af1832": "C23", "f5522d9": "C31", "a583383": "C27", "aa068cc": "C27", "10a9947": "C28", "c47df43": "C28", "0b7cd3a": "C28", "64d1b64": "C20",
     "9427889": "C30", "d179abc": "C05",
     "b0ad43f": "C32", "1ab1edb": "C32", "e73eb55": "C32", "f6feeb1": "C32", "b09d72d": "C33", "1630d4c": "C33", "3fca045": "C20", "4dcf569": "C35", "94cc9f6": "C35", "83620f9": "C24", "ea7f22a": "C06", "e8eb5f7": "C06", "f94c8c2": "C30", "a9b975b": "C30", "7b42e8a": "C30"}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        print("fixed: property=%s %s %s" % (M.get(h, "???"), h, s[5:]))
