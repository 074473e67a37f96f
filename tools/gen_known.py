#!/usr/bin/env python3
"""known_findings.txt: one 'fixed:' line per repair commit of /repo (properties by commit subject), plus the findings below."""
import subprocess, os
PROP = {
 'high surrogates are exactly': 'C01', 'report 4 processed bytes': 'C01', 'bytes that start no valid': 'C03', 'codepoint::replace compiles': 'C02',
 'index() is available on a const': 'C02', 'bounded strlen and reverse': 'C02', 'mutable string iterators': 'C02', 'UTF-16 strlen accepts': 'C02',
 'slicing with the most negative': 'C04', 'characters of ill-formed': 'C03', 'the distance of two code point': 'C03', 'decoding an unpaired': 'C03',
 'fixed_flat_map::find': 'C27', 'strings compare when a view': 'C05', 'assigning repeated characters': 'C06', 'null_terminated() of a string': 'C06',
 'an unpaired surrogate in a format': 'C09', 'numbers in a format string': 'C09', 'an unterminated string in': 'C13', 'an index at the end': 'C09',
 'slicing a contiguous range': 'C21', 'indexing a map': 'C21', 'characters are padded': 'C15',
}
extra = os.path.join(os.path.dirname(__file__), 'known_props.txt')   # lines: CXX<TAB>subject prefix
for l in open(extra) if os.path.exists(extra) else []:
    if '\t' in l:
        p, s = l.rstrip('\n').split('\t'); PROP[s] = p
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], text=True)
out = []
for l in log.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix: '): continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    if not p: print('no property for:', s); continue
    out.append(f'fixed: property={p[0]} {h} {s} (before the repair this did not hold)')
fnd = os.path.join(os.path.dirname(__file__), 'findings.txt')
if os.path.exists(fnd): out += [l.rstrip('\n') for l in open(fnd) if l.startswith('finding:')]
open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
