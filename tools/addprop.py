"""Development helper: insert the text on stdin before the #@NEXT marker."""
import sys
p = "/verif/tools/mkprops.py"
s = open(p).read()
open(p, "w").write(s.replace("#@NEXT", sys.stdin.read() + "\n#@NEXT"))
