# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os
rows = ['| planted change | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    f = lambda s: ' '.join(s.split()).replace('|', '\\|')
    rows.append('| %s: %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), f(m['what_it_breaks']), f(m['needs']), m.get('caught_by', m['property'])))
p = '/verif/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
