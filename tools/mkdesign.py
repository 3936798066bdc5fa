"""fills the seed table of DESIGN.md from seeded/*/meta.json (between the markers)"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught_by', m['property']), m['needs']))
p = here + '/DESIGN.md'
t = open(p).read()
tab = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in t:
    t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: tab, t, flags=re.S)
else:
    t = t.replace('SEEDTABLE', tab)
open(p, 'w').write(t)
