"""rewrites the table of DESIGN.md section 10 from seeded/*/meta.json"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted((m['property'], os.path.basename(os.path.dirname(f)), m['needs']) for f in glob.glob(H + '/seeded/*/meta.json') for m in [json.load(open(f))])
s = open(H + '/DESIGN.md').read()
i = s.index('| property | seed | needs |')
rest = s[i:].split('\n')
rest = '\n'.join(rest[next(k for k, l in enumerate(rest) if not l.startswith('|')):])
s = s[:i] + '| property | seed | needs |\n|----|----|----|\n' + ''.join('| %s | %s | %s |\n' % (p, n, w.replace('|', '/').replace('\n', ' ')) for p, n, w in rows) + rest
open(H + '/DESIGN.md', 'w').write(s)
