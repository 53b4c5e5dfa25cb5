#!/usr/bin/env python3
"""Writes data/ucd14v.json.gz: general category, script, script extensions, age, block and numeric value of every code point
(as ranges), from perl's copy of the Unicode Character Database (15.0) restricted to version 14.0. Run once by hand."""
import gzip, json, subprocess
perl = r'''
use Unicode::UCD qw(prop_invmap prop_invlist);
for my $p ("In_Fourteen", "General_Category", "Script", "Script_Extensions", "Age", "Block", "Numeric_Value") {
  if ($p eq "In_Fourteen") { my @l = prop_invlist("In=14.0"); print "IN\t@l\n"; next }
  my ($l, $m, $f, $d) = prop_invmap($p);
  print "PROP\t$p\t$f\t$d\n";
  for my $i (0 .. $#$l) { my $v = $m->[$i]; $v = join ",", @$v if ref $v; my $e = $i < $#$l ? $l->[$i+1] - 1 : 0x10FFFF; print "$l->[$i]\t$e\t$v\n"; }
}
'''
out = subprocess.run(['perl', '-e', perl], capture_output=True, text=True, check=True).stdout.splitlines()
i14 = [int(x) for x in out[0].split('\t')[1].split()]
in14 = bytearray(0x110000)
for k in range(0, len(i14), 2):
    for c in range(i14[k], i14[k + 1] if k + 1 < len(i14) else 0x110000):
        in14[c] = 1
props, cur, fmt = {}, None, None
for l in out[1:]:
    f = l.split('\t')
    if f[0] == 'PROP':
        cur, fmt = props.setdefault(f[1], [None] * 0x110000), f[2]
        print(f)
        continue
    a, b, v = int(f[0]), int(f[1]), f[2]
    for c in range(a, min(b, 0x10FFFF) + 1):
        cur[c] = v if not (fmt.startswith('a') and v.lstrip('-').isdigit()) else str(int(v) + c - a)
default = {'General_Category': 'Cn', 'Script': 'Unknown', 'Script_Extensions': 'Unknown', 'Age': 'Unassigned', 'Numeric_Value': 'NaN'}
new_blocks = {'Arabic Extended-C', 'Devanagari Extended-A', 'Kawi', 'Kaktovik Numerals', 'Cyrillic Extended-D', 'Nag Mundari', 'CJK Unified Ideographs Extension H', 'Cyrillic Extended D', 'Arabic Extended C'}
res = {}
for p, m in props.items():
    if p in default:
        m = [v if in14[c] else default[p] for c, v in enumerate(m)]
    if p == 'Block':
        m = ['No_Block' if v in new_blocks else v for v in m]
        m[0x13440:0x13460] = ['No_Block'] * 0x20  # the block of format controls grew in 15.0
    o = []
    for c, v in enumerate(m):
        if not o or o[-1][1] != v:
            o.append([c, v])
    res[p] = o
    print(p, len(o), o[:4], len({v for _, v in o}))
# the enumerators the interface offered at the time of writing
import re
src = open('/repo/include/unicode-db/unicode-db.hpp').read()
enums = {}
for e in ('category', 'script', 'block', 'version', 'property'):
    m = re.search(r'enum class %s\b[^;{]*\{(.*?)\};' % e, src, re.S)
    enums[e] = [x.split('=')[0].strip() for x in re.sub(r'//[^\n]*', '', m[1]).split(',') if x.strip()]
    print(e, len(enums[e]), enums[e][:8])
res['enums'] = enums
with gzip.GzipFile("/verif/data/ucd14v.json.gz", "wb", mtime=0) as f:
    f.write(json.dumps(res).encode())
