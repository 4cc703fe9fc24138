#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'c12-bad-weak-ptr-as-expiry': 'exceptions of 8 types in all engines', 'c12-active-slot-kept-on-exception': 'mismatches after an injected fault refute C12/C13',
 'c12-combiner-swallows-bad-weak-ptr': 'combs and seqD added to C12', 'c22-grow-leaks-stack-elements': '--own, leak tags', 'c09-combiner-manual-lock': 'fault added to C09',
 'c18-expired-before-lock': 'racing owners in slots', 'c08-never-collect-when-nested': 'nested churn patterns', 'c05-blocked-seen-before-tracked': 'mass expiry and quiet cases',
 'c07-last-slot-held': 'seq: checks and operations in the combiner after the last slot', 'c04-convertible-group': 'seq: groups named by values of other types',
 'c04-disconnect-ref': 'probe.cpp', 'c18-ref-slot-copied': 'slots: function objects by reference', 'c21-arity-nine-arg': 'arity: fourteen parameters',
 'c23-signal-pointer-ignored': 'slots: mixtures in one bind', 'c20-lock-gives-up': 'mutexes: long holds',
}
rows = ['| property | bug | breaks | note |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s | %s |' % (m['property'], d, m['what_it_breaks'].replace('|', '/'), ('(+) ' + NOTE[d]) if d in NOTE else ''))
p = R + '/DESIGN.md'
s = open(p).read()
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if '@@TABLE@@' in s:
    s = s.replace('@@TABLE@@', t)
else:
    s = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
