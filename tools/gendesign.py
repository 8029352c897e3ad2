#!/usr/bin/env python3
# gendesign.py: writes DESIGN.md from design_head.md, the planted bugs and design_tail.md.
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
NOTES = {
    'c20-too-many': 'missed at first (sums of glyph counts near 65536 were not generated); huge fonts added',
    'c27-freetype-order': 'missed at first (conversions were not repeated); converters added to the histories',
    'c28-name-bom': 'missed at first (text never started with a byte order mark); added to the name generator',
    'c01-cmap4-length': 'rarely reached at first; structures are now cut at their ends',
    'c18-range-boundary': 'rarely reached at first; now every code point is subset on its own',
    'c02-no-metrics': 'missed at first (counts changed without the lengths that depend on them are rejected); `Counts` added',
    'c12-freetype-selector': 'missed by C12 at first, seen by C26; converted fonts are now validated in C12 too',
    'c23-kern-vertical': 'missed at first (vertical pairs were never written as KPX or KP); the generator does now',
    'c25-chars-reset': 'written after a mutant at this place survived; characters with a hyphen after a range are generated since',
    'c09-vmtx-tail': 'missed by C09 at first (seen by C28); C09 now compares side bearings too',
    'c17-glyf-131072': 'rarely reached at first; fonts at the limit of the short loca table added',
    'c28-os2-short': 'missed at first; tables are now cut at each field',
    'c15-first-bearing': 'missed at first (side bearings were equal to xMin or far from it); near misses added',
    'c23-hex-digit': 'missed at first (codes always had two digits); widths of hexadecimal codes vary now',
}
NOTES.update(json.load(open(here + '/bug_notes.json')) if os.path.exists(here + '/bug_notes.json') else {})
out = open(here + '/design_head.md').read()
out += '''## 6. Planted bugs

Each was written from the text of a property and the code, confirmed in a scratch worktree (compiles, stable tests pass, the demonstration
fails only with it) and then tried against the quick check of its property. All are caught by that check now.

| bug | caught by | what it needs | |
|---|---|---|---|
'''
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m, b = json.load(open(f)), f.split('/')[-2]
    out += '| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'].replace('|', '/'), NOTES.get(b, ''))
out += open(here + '/design_tail.md').read()
open(root + '/DESIGN.md', 'w').write(out)
