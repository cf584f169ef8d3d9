#!/usr/bin/env python3
"""Writes known_findings.txt: the fix commits of /repo (looked up by message) and the recorded findings."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# message of the commit -> (property, what failed)
FIX = {
 "FlatTreeWriter releases its array": ("C06", "writing a flat tree freed an array with the wrong operator"),
 "getCard does not answer from a table": ("C02", "cardinalities came from a table that outlived the querier and ignored updates"),
 "seeking backwards on the last row": ("C03", "a seek to an earlier key on the last row of a reordered iterator lost that row"),
 "cardinality of a key whose second permutation": ("C02", "cardinality of a key whose second permutation was skipped"),
 "lookups beyond the last key of a flat tree": ("C06", "reads beyond the file for keys after the last one"),
 "seeking in the rows of one first term": ("C03", "a seek left the rows of the current first term"),
 "cardinality of an aggregated iterator": ("C03", "cardinality asked before the first advance was garbage"),
 "stopping the StringBuffer compression": ("C08", "the compression thread could miss its wakeup: the destructor hung"),
 "last block of a StringBuffer": ("C08", "a buffer that ends on a block boundary lost its last block"),
 "a VALUES scan returns every row": ("C13", "VALUES with several columns lost rows; used a reference to a dead vector; could not run twice"),
 "sorting by the count of a row": ("C13", "sorting by count read out of bounds (32 bit marker in a 64 bit slot), buffers freed with the wrong operator"),
 "BIND keeps the multiplicity": ("C13", "BIND turned every multiplicity into 1"),
 "a merge union does not repeat": ("C13", "a merge union repeated the last common value when the left side ended first"),
 "executing a product, a grouping or a limit again": ("C13", "second execution returned rows of the first"),
 "one marker for unbound values": ("C13", "32 bit and 64 bit markers for unbound values were mixed: unbound printed as an id, order broken for ids above 2^32"),
 "optional joins keep every tuple": ("C13", "optional hash and merge joins lost or dropped tuples without a partner"),
 "the scheduler holds its lock": ("C15", "work was handed out without the lock; the destructor could run before the workers started"),
 "timedWait waits for the whole time": ("C15", "timedWait returned up to 0.9 s early"),
 "executing a merge join again": ("C13", "hints saw the right value of an earlier execution and skipped tuples"),
 "a pool that is emptied": ("C13", "chunk sizes of a reused pool grew exponentially"),
 "the first row of a product": ("C13", "first row of a product with an empty optional side showed stale values"),
}
KNOWN = []
exec(open(V + "/tools/fixes_extra.py").read()) if os.path.exists(V + "/tools/fixes_extra.py") else None
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out, used = [], set()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    m = [k for k in FIX if k in s]
    if not m:
        print("no entry for", l); continue
    used.add(m[0]); out.append("fixed: property=%s %s %s" % (FIX[m[0]][0], h, FIX[m[0]][1]))
for k in FIX:
    if k not in used: print("no commit for", k)
out += ["known: property=%s key=%s %s" % k for k in KNOWN]
open(V + "/known_findings.txt", "w").write("\n".join(out) + "\n")
