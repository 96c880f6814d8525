"""Reads the committed file known-findings.txt.

Lines:   fixed: property=<id> <commit> <what failed>      (suppresses nothing)
         finding: property=<id> clause=<clause> match=<substring> :: <what fails>
"""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


def for_property(pid):
    res = []
    try:
        lines = open(FILE, encoding="utf-8").read().splitlines()
    except FileNotFoundError:
        return res
    for line in lines:
        m = re.match(r"finding: property=(\S+) clause=(\S+) match=(.*?) :: (.*)$", line)
        if m and m.group(1) == pid:
            clause, sub, what = m.group(2), m.group(3), m.group(4)
            def match(v, clause=clause, sub=sub):
                return v["clause"] == clause and sub in str(v["detail"]) + str(v["case"])
            res.append({"match": match, "what": what})
    return res
