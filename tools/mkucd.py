#!/usr/bin/env python3
"""Writes data/ucd14.json.gz: for every property name the library documents, the set of characters perl's copy of the
Unicode Character Database (15.0) gives it, restricted to characters assigned in Unicode 14.0 (the library's version).
Run once by hand (needs perl); the checks only read the file. Names come from the library's name tables at the time of
writing; which property a name denotes comes from perl's alias tables."""
import gzip, json, re, subprocess, sys
s = open('/repo/include/unicode-db/unicode-db.hpp').read()
T = {}
for m in re.finditer(r'string_with_idx (\w+)\[\]\s*=\s*\{(.*?)\};', s, re.S):
    T[m[1]] = re.findall(r'string_with_idx\{"([^"]*)",\s*(\d+)\}', m[2])
names = []
scripts = {n for n, _ in T['scripts_names']}
for n, _ in T['binary_prop_names']:
    names.append((n, 'sc=' + n if n in scripts else n))
for n, _ in T['scripts_names']:
    names += [('sc=' + n, 'sc=' + n), ('scx=' + n, 'scx=' + n)]
for n, _ in T['blocks_names']:
    names.append(('block=' + n, 'Blk=' + n))
for a in '1.1 2.0 2.1 3.0 3.1 3.2 4.0 4.1 5.0 5.1 5.2 6.0 6.1 6.2 6.3 7.0 8.0 9.0 10.0 11.0 12.0 12.1 13.0 14.0'.split():
    names.append(('age=' + a, 'In=' + a))
names = [x for x in names if x[0] not in ('sc=unknown', 'scx=unknown', 'sc=zzzz', 'scx=zzzz', 'block=nb', 'block=no_block')]
perl = r'''
use Unicode::UCD qw(prop_invlist);
sub show { my @l = @_; my @o; for (my $i = 0; $i < @l; $i += 2) { my $e = $i + 1 < @l ? $l[$i+1] - 1 : 0x10FFFF; push @o, sprintf("%x-%x", $l[$i], $e); } return join ",", @o }
print "AGE\t", show(prop_invlist("In=14.0")), "\n"; print "NONCHAR\t", show(prop_invlist("NChar=Y")), "\n";
while (<STDIN>) { chomp; my ($n, $q) = split /\t/; my @l = prop_invlist($q); if (!@l && $q !~ /=/) { for my $t ("gc=$q", "sc=$q") { @l = prop_invlist($t); last if @l } } print $n, "\t", (@l ? show(@l) : "none"), "\n"; }
'''
out = subprocess.run(['perl', '-e', perl], input=''.join('%s\t%s\n' % x for x in names), capture_output=True, text=True)
print(out.stderr[:500])
rows = [l.split('\t') for l in out.stdout.splitlines()]
def rng(t):
    return [tuple(int(y, 16) for y in x.split('-')) for x in t.split(',') if x]
def setof(t):
    r = set()
    for a, b in rng(t):
        r.update(range(a, b + 1))
    return r
mask = setof(rows[0][1]) - setof(rows[1][1])
# characters whose property changed between Unicode 14.0 and 15.0
changed = {'cased': '10fc a7f2 a7f3 a7f4 ab69', 'lower': '10fc a7f2 a7f3 a7f4 ab69', 'lowercase': '10fc a7f2 a7f3 a7f4 ab69', 'alpha': 'c04 f82 f83 11080 11081', 'alphabetic': 'c04 f82 f83 11080 11081'}
def pack(st):
    o, start, prev = [], None, None
    for c in sorted(st):
        if start is None: start = prev = c
        elif c == prev + 1: prev = c
        else: o += [start, prev]; start = prev = c
    if start is not None: o += [start, prev]
    return o
sets, index, table, skipped = [], {}, {}, []
for n, t in rows[2:]:
    if t == 'none':
        skipped.append(n); continue
    p = tuple(pack(setof(t) & mask))
    if p not in index:
        index[p] = len(sets); sets.append(list(p))
    table[n] = [index[p], [int(x, 16) for x in changed.get(n, '').split()]]
with gzip.GzipFile("/verif/data/ucd14.json.gz", "wb", mtime=0) as f:
    f.write(json.dumps({"mask": pack(mask), "sets": sets, "names": table}).encode())
print(len(table), 'names', len(sets), 'sets; not in perl:', skipped)
