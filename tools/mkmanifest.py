"""Regenerate properties.jsonl and MANIFEST.json from pdsa/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from pdsa.props import PROPS, NA

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
TECH = {'P12': 'ownership/effect analysis by abstract interpretation of the AST', 'P13': 'alias analysis by abstract interpretation with value numbering',
        'P14': 'abstract interpretation over interval classes, every path must raise', 'P16': 'abstract interpretation over interval classes, every path must raise',
        'P17': 'taint analysis plus algebraic global value numbering', 'P32': 'abstract interpretation of value graphs over an extended exponent range (overflow/underflow)', 'P33': 'abstract interpretation of value graphs: sign and interval analysis of every divisor', 'P31': 'non-interference/effect analysis with algebraic global value numbering'}
NOTE = ('Sound for every real input value in each analysed class (shape and option combinations listed in the evidence), up to hash collisions of about 2^-70 per comparison; '
        'real arithmetic, documented numpy/scipy semantics, 2, 4, 6 and 8 streams, the listed layer, coefficient and query counts. Rounding is not modelled. '
        'A reported violation carries the construct and, for value differences, input values at which the two expressions differ.')
NOTE32 = ('The value graphs are complete for the analysed classes; their range behaviour is judged at representative values of each thickness class (opaque layers, thin above opaque), '
          'not for every real value. Rounding is not modelled.')
NOTE33 = ('The value graphs are complete for the analysed classes. A divisor whose interval excludes zero is decided for all values; otherwise its sign is judged at 12 sample points of the class '
          'and a sign change proves a zero (intermediate value theorem), so a zero without a sign change at the samples is not found. Two open known findings.')
m = dict(version=1, setup_cmd='python3 --version && python3 -c "import sys; sys.path.insert(0, \'.\'); import pdsa.checks"',
         checks=[dict(property=p['id'], quick_cmd='python3 -m pdsa.run %s --tier quick' % p['id'], thorough_cmd='python3 -m pdsa.run %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=TECH.get(p['id'], 'abstract interpretation of the AST with algebraic global value numbering'),
                      level='other', level_note={'P32': NOTE32, 'P33': NOTE33}.get(p['id'], NOTE)) for p in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
         notes='No hooks in /repo. The analyser reads /repo/src/PythonicDISORT on every run and executes none of it; it needs only the standard library of python3.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)

d = os.path.join(H, 'tools', 'DESIGN.in.md')
if os.path.exists(d):
    s = open(d).read()
    s = s.replace('@@TABLE@@', '\n'.join('| %s | %s — *%s* | %s |' % (p['id'], p['rule'].replace('|', '\\|'), p['title'], p['why']) for p in PROPS))
    s = s.replace('@@NA@@', '\n'.join('* %s, %s: %s' % (p['id'], p['title'], p['reason']) for p in NA))
    x = os.path.join(H, 'tools', 'DESIGN.extra.md')
    s = s.replace('@@EXTRA@@', open(x).read() if os.path.exists(x) else '')
    import glob
    seeds = {}
    for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
        seeds.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
    s = s.replace('@@SEEDS@@', '\n'.join('* %s: %s' % (k, ', '.join(seeds[k])) for k in sorted(seeds)))
    open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
