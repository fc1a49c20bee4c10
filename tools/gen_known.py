#!/usr/bin/env python3
"""Writes known_findings.txt: the repaired defects come from /repo's fix commits."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = { # commit subject prefix -> property
"read the next-IFD pointer":"C06","keep iterating a directory":"C09","report malformed IFD":"C09","rewinding an ExifIter":"C08",
"resolve the GPS":"C08","reject HEIF item":"C01","reset the buffer":"C03","keep PNG chunks":"C15","report every CMT":"C04",
"find Motion Photo":"C16","an APP1 segment":"C16","recognise MP4":"C17","match QuickTime":"C13","read version 1":"C13",
"an ISO 6709":"C12","decimal degrees":"C12","wait for the embedded":"C03","a RAF camera":"C07","read 4-byte EBML":"C14",
"scale the Matroska":"C14","skip Matroska Info":"C14","resolve Matroska seek":"C14","report the size of a Matroska":"C14",
"answer with the wrong-kind":"C24","load a whole TIFF":"C03","don't report missing":"C03"}
BY.update({k:v for k,v in [l.rstrip("\n").split("\t") for l in open(os.path.join(HERE,"tools/fixes.tsv"))]} if os.path.exists(os.path.join(HERE,"tools/fixes.tsv")) else {})
out = ["# known: property=<id> sub=<check> sig=<signature> :: <what fails>   (a recorded finding; suppresses exactly that signature)",
       "# fixed: property=<id> <commit> <what failed>                          (repaired; suppresses nothing)"]
p = os.path.join(HERE,"tools/known.txt")
if os.path.exists(p): out += [l.rstrip("\n") for l in open(p) if l.strip()]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ps = [v for k,v in BY.items() if s.startswith(k)]
    assert len(ps)==1, s
    out.append(f"fixed: property={ps[0]} {h} {s}")
open(os.path.join(HERE,"known_findings.txt"),"w").write("\n".join(out)+"\n")
