"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/."""
import collections, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for n in sorted(os.listdir(V + '/seeded')):
    by[json.load(open('%s/seeded/%s/meta.json' % (V, n)))['property']].append(n)
p = V + '/DESIGN.md'
s = open(p).read()
head = s[:s.index('| Planted | Caught by |')]
head = re.sub(r'All \d+ are now', 'All %d are now' % sum(map(len, by.values())), head)
s = head + '| Planted | Caught by |\n|---|---|\n' + ''.join('| %s | %s |\n' % (', '.join(v), k) for k, v in sorted(by.items()))
open(p, 'w').write(s)
