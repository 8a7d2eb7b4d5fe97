#!/usr/bin/env python3
"""Rewrites the table of spaces in DESIGN.md from the harness sources."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spaces():
    out = {}
    for path in sorted(glob.glob(os.path.join(ROOT, "harness", "*.cc")) + [os.path.join(ROOT, "harness", "batch_common.h")]):
        text = open(path).read()
        macros = dict(re.findall(r'#define (SHORT|LONG|GRID|FIELDS|FAR_BOUND|MANY)[\s\\]+"((?:[^"\\]|\\.)*)"', text))
        for m in re.finditer(r'(?:MC_SPACE|Register \w+)\(\s*"([A-Z]\d\d)",\s*"(\w+)",\s*((?:(?:SHORT|LONG|GRID|FIELDS|FAR_BOUND|MANY)?\s*"(?:[^"\\]|\\.)*"\s*)+)', text):
            bound = re.sub(r"\b(SHORT|LONG|GRID|FIELDS|FAR_BOUND|MANY)\b", lambda k: '"%s"' % macros[k.group(1)], m.group(3))
            out.setdefault(m.group(1), []).append((m.group(2), "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', bound))))
        for name in ("h_exec.cc", "h_ind.cc"):
            if path.endswith(name):
                k = text.index("#define SCALE(")
                bound = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"|#(DEPTH)', text[k:text.index("[](Run", k)])[i][0] or "600-1500"
                                for i in range(len(re.findall(r'"((?:[^"\\]|\\.)*)"|#(DEPTH)', text[k:text.index("[](Run", k)]))))
                bound = bound[5:] if bound.startswith("scale") else bound
                for m in re.finditer(r'^SIZES\("(\w+)",\s*"(\w+)"', text, re.M):
                    out.setdefault(m.group(1), []).append((m.group(2), "histories of 420 updates in the 20 time and shape patterns, for every window size from 1 to 130 (thorough 200)"))
                for m in re.finditer(r'^SCALE\("(\w+)",\s*("\w+")?', text, re.M):
                    out.setdefault(m.group(1), []).append(((m.group(2) or '"scale"').strip('"'), bound))
        if path.endswith("h_account.cc"):
            macro = text[text.index("#define FOR_PROP(P)"):]
            for name, bound in re.findall(r'MC_SPACE\(#P,\s*"(\w+)",\s*((?:"[^"]*"[\s\\]*)+),', macro):
                for prop in re.findall(r"^FOR_PROP\((\w+)\)", macro, re.M):
                    out.setdefault(prop, []).append((name, "".join(re.findall(r'"([^"]*)"', bound))))
    return out


def bugs():
    rows = ["| change | property (caught by its check) | what breaks | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
    return rows


def replace(text, name, rows):
    a, b = "<!-- %s -->\n" % name, "<!-- end of %s -->\n" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n".join(rows) + "\n" + text[j:]


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    table = ["| property | space | bound |", "|---|---|---|"]
    for prop, rows in sorted(spaces().items()):
        if prop.startswith("A0"):
            if prop != "A01":
                continue
            prop = "A01-A05"
        for name, bound in rows:
            table.append("| %s | %s | %s |" % (prop, name, bound.replace("|", "\\|")))
    text = replace(text, "spaces", table)
    text = replace(text, "changes", bugs())
    open(path, "w").write(text)


if __name__ == "__main__":
    main()
