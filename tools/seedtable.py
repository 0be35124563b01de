"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json; --write puts it under the heading in DESIGN.md."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('c03-multi-literal c08-crlf c09-parse-memo c23-chars-lower c24-update-shared c13-merges-first-n c14-splitlines '
             'c14-suffix-replace c21-case-ids'.split())
p = os.path.join(ROOT, 'tools', 'first_missed.txt')
if os.path.exists(p):
    MISSED |= set(open(p).read().split())
p = os.path.join(ROOT, 'tools', 'not_caught.txt')
UNCAUGHT = set(open(p).read().split()) if os.path.exists(p) else set()
rows = ['| planted bug | check that reports it | what it breaks | |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    note = 'not caught' if i in UNCAUGHT else 'first missed' if i in MISSED else ''
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {note} |")
t = '\n'.join(rows) + '\n'
if '--write' in sys.argv:
    f = os.path.join(ROOT, 'DESIGN.md'); s = open(f).read()
    a = s.index('strengthened.\n\n', s.index('## 6. Planted bugs')) + len('strengthened.\n\n')
    b = s.find('\n## ', a)
    open(f, 'w').write(s[:a] + t + (s[b:] if b > 0 else ''))
else:
    print(t)
