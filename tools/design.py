"""Regenerates DESIGN.md from the texts below, the check modules, properties and planted bugs."""
import glob, importlib, io, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import contextlib, props
with contextlib.redirect_stdout(io.StringIO()):
    import harness.run
    MODS = {x['id']: importlib.import_module('checks.' + x['id'].lower()) for x in props.P
            if os.path.exists(os.path.join(HERE, 'checks', x['id'].lower() + '.py'))}

GENERAL = open(os.path.join(HERE, 'tools', 'design_general.md')).read()
ORACLE = {}
cur = None
for line in open(os.path.join(HERE, 'tools', 'design_oracles.md')):
    if line.startswith('## '):
        cur = line[3:].strip()
        ORACLE[cur] = ''
    elif cur:
        ORACLE[cur] += line
out = [GENERAL.rstrip() + '\n', '\n# Properties\n']
for x in props.P:
    i = x['id']
    out.append('\n## %s %s\n\n%s\n' % (i, x['title'], x['statement'].strip()))
    if i not in MODS:
        out.append('\nNot applicable: ' + props.NA.get(i, '') + '\n')
        continue
    m = MODS[i]
    out.append('\n**Decided by.** %s\n' % m.RULE.strip())
    out.append('\n' + ORACLE.get(i, '').strip() + '\n')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('\nBounds and assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    out.append('\nSub-checks (quick / thorough cases; non-trivial rule): ' + '; '.join(
        '%s %d / %d%s' % (s.name, s.quick, s.thorough, (' (%s)' % s.rule) if getattr(s, 'rule', '') else '') for s in m.SUBCHECKS) + '.\n')
out.append('\n# Planted bugs (/verif/seeded)\n\nEach was written from the text of its property, builds, passes the stable tests, has a demonstration, '
           'and is caught by the quick check of its property (VIOLATION with a shrunk replay).\n\n| bug | property | file | what it breaks | needs |\n|---|---|---|---|---|\n')
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    files = sorted({l[6:].strip() for l in open(os.path.join(os.path.dirname(f), 'patch.diff'), newline='') if l.startswith('+++ b/')})
    esc = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
    out.append('| %s | %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], ', '.join(os.path.basename(g) for g in files), esc(d['what_it_breaks']), esc(d['needs'])))
k = json.load(open(os.path.join(HERE, 'known_findings.json')))
out.append('\n# Genuine defects found\n\nRepaired in /repo with one minimal `fix:` commit each (known_findings.json has the list; a fixed entry suppresses nothing):\n\n')
out += ['- %s\n' % s.replace('fixed: property=', '') for s in k['fixed']]
out.append('\nRecorded, not repaired:\n\n' + (''.join('- %s\n' % json.dumps(s) for s in k['findings']) or '- none\n'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
missing = [i for i in MODS if i not in ORACLE]
print('no oracle text:', missing)
