#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks listed below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C05': ('reference monitor: independent cmap reader compared with every answer', 'Every code point of each generated map is looked up, plus probes around segment borders.'),
 'C06': ('reference monitor: inverse of an independent cmap reader', 'All glyphs of generated fonts, first and repeated calls, after subset, merge and round trip.'),
 'C07': ('reference monitor: independent glyf interpreter compared event by event with the drawn path', 'All glyphs of generated fonts and a sample of real fonts; point-matching composites, scaled component offsets and coordinates beyond +-32000 excluded.'),
 'C08': ('reference monitor: independent Type 2 charstring interpreter compared event by event with the drawn path', 'All glyphs of generated CFF and CID fonts; arithmetic operators, seac, CFF2 excluded (unsupported by the library).'),
 'C09': ('reference monitor: independent readers of the metric tables and outline boxes', 'All glyphs of generated fonts.'),
 'C10': ('reference monitor: independent kern reader', 'All pairs of each subtable and near misses, before and after subset and round trip.'),
 'C11': ('reference monitor: independent name readers and operation history model', 'All glyphs and names, interleaved with renaming and round trips.'),
 'C28': ('reference monitor: independent field readers; rejection oracle for damaged required tables', 'All exposed fields.'),
}
exec(open(os.path.join(here, 'tools', 'manifest_notes.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'manifest_notes.py')) else None
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NA = globals().get('NA', {})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in NOTE:
        m['checks'].append({'property': p, 'quick_cmd': 'bash check.sh %s quick' % p, 'thorough_cmd': 'bash check.sh %s thorough' % p,
            'technique': 'runtime monitoring: ' + NOTE[p][0], 'level': 'exploration', 'level_note': NOTE[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
