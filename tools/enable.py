"""tools/enable.py ID 'technique' 'note': mark a property as claimed in proplist.py"""
import re
import sys

p = __file__.replace("enable.py", "proplist.py")
s = open(p).read()
i, tech, note = sys.argv[1:4]
a = s.index('prop("%s"' % i)
b = s.index("\n\n", a) if "\n\n" in s[a:] else len(s)
blk = s[a:b]
assert blk.count("na=TODO)") == 1, i
blk = blk.replace("na=TODO)", "technique=%s,\n     note=%r)" % (tech, note))
open(p, "w").write(s[:a] + blk + s[b:])
