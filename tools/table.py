"""Writes the table of seeded bugs of DESIGN.md from /verif/seeded."""
import collections
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for d in sorted(os.listdir(V + '/seeded')):
    t[d[:3]].append(d[4:])
s = open(V + '/DESIGN.md').read()
a = s.index('| property | caught changes |')
b = s.index('\n\n', a)
s = s[:a] + '| property | caught changes |\n|---|---|\n' + '\n'.join('| %s | %s |' % (k, ', '.join(v)) for k, v in sorted(t.items())) + s[b:]
s = re.sub(r"\(`seeded/`, \d+;", "(`seeded/`, %d;" % sum(map(len, t.values())), s)
open(V + '/DESIGN.md', 'w').write(s)
