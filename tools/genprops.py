#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Parsing arbitrary bytes never crashes or hangs",
 "Every function that turns bytes into a font (SFNT, collection, embedded, WOFF, WOFF2, EOT, AFM, format detection) returns either a result or an error for any byte string. It never panics, never crashes the process and never loops without bound, however the lengths, counts, offsets, compressed streams and nested references in the bytes were chosen.",
 ["inputs"], "all byte strings, in particular every truncation and every corruption of a length, count, offset, index or compressed stream in an otherwise well-formed font, in every container format",
 "The tests feed about two hundred fixed files; a crash needs one particular field to be wrong in one particular table, a space no fixed list samples.",
 ["font.go","sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_os2.go","woff.go","woff2.go","eot.go","afm.go"],
 [("bounds checks before each read", "parseSFNT and every parseXxx method; ParseWOFF, ParseWOFF2, ParseEOT, ParseAFM")],
 ["return value, recovered panic, process exit, CPU time and heap growth of one parse call"])

prop("C02", "No operation on an accepted font crashes or hangs",
 "Once a parser has accepted a font, every query, every outline extraction, naming, subsetting, merging and writing operation on it completes with a result or an error for every glyph ID, rune, name, pair and glyph list. This also holds for fonts that were accepted although some of their data is malformed (cyclic composites, bad subroutine numbers, out-of-range glyph references, empty or missing optional tables), and for glyph IDs and runes the font does not have.",
 ["inputs","histories"], "all fonts a parser accepts x all glyph IDs 0..65535, all runes, all names, all glyph lists, in any order of calls",
 "Tests query a handful of glyphs of two well-formed fonts; malformed glyph programs are only interpreted on demand, long after parsing succeeded.",
 ["sfnt.go","sfnt_truetype.go","sfnt_cff.go","sfnt_cmap.go","sfnt_subset.go","sfnt_merge.go","woff2.go"],
 [("recursion limits and operand checks", "glyph and charstring interpreters"),("glyph ID range checks","lookup functions")],
 ["return value, recovered panic, number of path events emitted, CPU time per call"])

prop("C03", "Memory used for opening a font stays bounded by the limit",
 "Opening a font allocates memory bounded by a fixed multiple of the input size plus the configured memory limit. A small file, whatever sizes it declares and however well its streams compress, can never make a decoder inflate or allocate beyond that; it is rejected instead.",
 ["inputs"], "all inputs, in particular compressed tables that inflate to far more than they declare, and headers that declare huge tables, counts or sizes",
 "No test measures allocation, and the few oversized declarations among the test files are caught by one early check; bombs live in the other paths.",
 ["woff.go","woff2.go","eot.go","sfnt.go","sfnt_cff.go","sfnt_cmap.go","afm.go"],
 [("MaxMemory checks","ParseWOFF, ParseWOFF2, parse* table functions"),("bounded decompression","WOFF zlib and WOFF2 brotli readers")],
 ["bytes allocated during one parse call, length of the returned data"])

prop("C04", "Input bytes and arguments are never modified",
 "Parsing, converting, querying, subsetting, merging and writing never change the byte slice a font was opened from, nor the slices the caller passes as arguments. The same byte slice can be opened any number of times, in any format, and always yields the same font.",
 ["inputs","histories"], "all fonts in all container formats and all sequences of operations on fonts opened from the same bytes, with argument slices that have spare capacity",
 "No test compares the input before and after an operation, and aliasing only shows after a second use.",
 ["sfnt.go","woff.go","woff2.go","eot.go","sfnt_subset.go","sfnt_merge.go","font.go"],
 [("copy before write","places that patch checksums and flags, XOR decryption, slice appends")],
 ["digest of the input slice and of the spare capacity of argument slices before and after each call"])

prop("C05", "Character lookup follows the font's character map",
 "For every code point the lookup returns exactly the glyph that the first matching character-map subtable in the font assigns to it, and 0 when none does. This holds for all supported subtable formats, all segment shapes (single, contiguous, delta, array-based, sparse, boundary 0xFFFF, supplementary planes) and all platform/encoding combinations that are read.",
 ["inputs"], "all well-formed fonts x all code points 0..0x10FFFF",
 "Tests look up three letters in one font.",
 ["sfnt_cmap.go","sfnt.go"],
 [("per-format lookup","cmapTable.Get and the cmapFormat* types"),("subtable selection","parseCmap")],
 ["GlyphIndex for each code point"])

prop("C06", "Reverse character lookup is the exact inverse",
 "The runes reported for a glyph are exactly the code points that some character-map subtable of the font assigns to that glyph, each reported, and glyph 0 or an unmapped glyph yields only what the map says. The answer is the same on the first and on every later call and survives a write/parse round trip; after subsetting and merging it is again the inverse of the resulting font's lookup.",
 ["inputs","histories"], "all well-formed fonts x all glyph IDs, before and after other operations",
 "No test calls the reverse lookup.",
 ["sfnt_cmap.go","sfnt.go"],
 [("inverse map built per subtable and cached","cmapTable.ToUnicode")],
 ["GlyphToUnicode for each glyph vs. the forward map over all code points"])

prop("C07", "TrueType outlines are drawn as the glyph data defines them",
 "For every glyph of a TrueType font the drawn path is the outline that the glyph data defines: closed contours with the correct points, implied on-curve points, curves and orientation, and composite glyphs with every component placed with its offset, scale or matrix. The requested position and scale are applied to every coordinate and nothing else changes it; hinting requested as none draws the unhinted outline. The description of a glyph (its bytes, points, end points, instructions, bounds) and the glyphs it depends on, directly and indirectly, are reported as the glyph data states them.",
 ["inputs"], "all TrueType glyph descriptions (all flag encodings, contours starting off-curve, all-off-curve contours, nested composites, all component flags) x all positions and scales",
 "Tests only check the point count of one empty glyph.",
 ["sfnt_truetype.go"],
 [("glyph decoder","glyfTable.Contour, glyfTable.Dependencies, glyfTable.Get, locaTable.Get"),("path conversion","glyfTable.ToPath")],
 ["sequence of Pather events"])

prop("C08", "CFF outlines are drawn as the charstrings define them",
 "For every glyph of a CFF font the drawn path is the outline its charstring defines: all path, flex, hint and mask operators, all number encodings, local and global subroutines with the correct bias, implicit closing, and per-font-dictionary private data of CID fonts. The requested position and scale are applied to every coordinate.",
 ["inputs"], "all valid Type 2 charstrings with up to the allowed stack depth and nesting x all subroutine counts (all bias classes) x name-keyed and CID-keyed fonts",
 "Only one CFF font is ever opened in the tests and no outline of it is drawn.",
 ["sfnt_cff.go"],
 [("charstring interpreter","cffTable.parseCharString / ToPath"),("INDEX, DICT, FDSelect parsing","parseCFF and helpers")],
 ["sequence of Pather events"])

prop("C09", "Metrics and bounds equal what the font's tables state",
 "Advance widths, side bearings, vertical advances, units per em, glyph count, line metrics and glyph bounding boxes are those that the font's tables and outlines state, for every glyph. This includes trailing glyphs that share the last advance and keep their own side bearing, absent vertical metrics, each rule for choosing between typographic, Windows and horizontal-header line metrics, and bounds that enclose the glyph's outline.",
 ["inputs"], "all well-formed fonts x all glyph IDs x all combinations of header values and selection flags",
 "Tests compare a handful of header fields of one font.",
 ["sfnt.go","sfnt_os2.go","sfnt_util.go","sfnt_truetype.go","sfnt_cff.go"],
 [("hmtx/vmtx lookup","hmtxTable, vmtxTable"),("line metric selection","SFNT.VerticalMetrics"),("bounds","SFNT.GlyphBounds, bboxPather")],
 ["GlyphAdvance, GlyphVerticalAdvance, VerticalMetrics, GlyphBounds, UnitsPerEm, NumGlyphs"])

prop("C10", "Kerning equals the font's kerning table for every pair",
 "For every ordered pair of glyphs the kerning value is what the font's horizontal kerning data states (the sum over the applicable subtables, honouring overrides and minimums), and 0 for every other pair. Looking up a pair gives the same value after subsetting (under the renumbered glyphs) and after a write/parse round trip.",
 ["inputs"], "all well-formed kern tables x all ordered glyph pairs",
 "One AFM pair is checked; no test reads a kern table.",
 ["sfnt.go","sfnt_subset.go","afm.go"],
 [("binary search per subtable","kernFormat0.Get"),("subtable combination","kernTable.Get, parseKern")],
 ["Kerning(left,right)"])

prop("C11", "Glyph names and glyph IDs map to each other consistently",
 "The name of each glyph is the one the font defines for it (standard names included), and looking up a name returns a glyph that has that name, the first one if several do, and 0 for names the font lacks. After assigning names, both directions reflect exactly the assigned names, also if names were looked up before, and writing and re-parsing the font keeps them.",
 ["inputs","histories"], "all fonts with any kind of name data x all glyph IDs and names x all orders of lookups, assignments and writes",
 "No test reads or assigns a glyph name of an SFNT.",
 ["sfnt.go","sfnt_cff.go"],
 [("post name storage","postTable.Get/Find, SetGlyphNames"),("CFF charset","cffTable.GlyphName, SetGlyphNames")],
 ["GlyphName, FindGlyphName, SetGlyphNames"])

prop("C12", "Written SFNT files are valid and re-read as the same font",
 "Every font the library writes is a structurally valid SFNT: sorted, aligned, non-overlapping tables, correct directory search fields, correct per-table checksums and whole-file checksum adjustment. Re-parsing it gives a font with the same tables, outlines, metrics, mappings, names and kerning, whether the font was parsed, subset, merged or renamed before.",
 ["inputs","histories"], "all accepted fonts x all histories of parse, rename, subset, merge, write",
 "One test writes one font and compares three lookups; nothing checks checksums or table layout.",
 ["sfnt.go","font.go","sfnt_cff.go","sfnt_cmap.go"],
 [("table directory and checksums","SFNT.Write"),("per-table writers","postTable/nameTable/cmapWrite/kernTable/cffTable Write")],
 ["bytes returned by Write, re-parsed"])

prop("C13", "WOFF decoding restores the original font and rejects damage",
 "Decoding a conforming WOFF file yields an SFNT whose tables are byte-identical to the originals (apart from the whole-font checksum, which is recomputed), whatever mix of stored and compressed tables, table order, metadata and private data the encoder chose. A file whose header, directory or table data is inconsistent (lengths, overlaps, checksums, sort order, damaged streams) is rejected and never yields a font with altered table content.",
 ["inputs"], "all fonts x all WOFF encodings of them x all single-field or single-byte damages",
 "The tests decode a fixed set of validation files and never compare the decoded tables with the originals.",
 ["woff.go"],
 [("directory validation, inflate and checksum verification","ParseWOFF")],
 ["returned bytes or error"])

prop("C14", "WOFF2 decoding restores the original font for any encoding",
 "Decoding a conforming WOFF2 file yields an equivalent font: untransformed tables are byte-identical, and transformed outline and metrics tables are rebuilt to the same points, contours, flags, composite data, instructions, bounding boxes, side bearings and advances. This holds for every choice the format leaves to the encoder (known and custom tags, transformed or not, every coordinate triplet form, explicit or implied bounding boxes, omitted side bearings, overlap flags, any glyph count, short or long offsets), and inconsistent files are rejected.",
 ["inputs"], "all fonts x all conforming WOFF2 encodings of them",
 "The decoding tests use fixed files and only look at whether an error is returned.",
 ["woff2.go"],
 [("glyf/loca reconstruction","reconstructGlyfLoca"),("hmtx reconstruction","reconstructHmtx"),("triplet and 255UInt16 decoding","woff2.go helpers")],
 ["returned SFNT bytes, compared table by table and glyph by glyph"])

prop("C15", "WOFF2 files written re-read as the same font",
 "Writing a font as WOFF2 and decoding the result gives a font with the same glyph outlines, composite structure, instructions, bounding boxes, advances, side bearings and all other table data as the font that was written. This holds for fonts with empty glyphs, composites, instructions, overlap flags, unusual bounding boxes, any number of glyphs, and for subset or merged fonts and CFF fonts, and independent decoders accept the file.",
 ["inputs","histories"], "all accepted fonts and all fonts produced by subsetting or merging",
 "No test writes WOFF2.",
 ["woff2.go"],
 [("glyf transform","transformGlyf"),("hmtx transform","transformHmtx"),("directory and brotli stream","WriteWOFF2")],
 ["bytes of WriteWOFF2, decoded by the library and by an independent decoder"])

prop("C16", "EOT decoding restores the embedded font",
 "Decoding a conforming uncompressed EOT file of any header version, with or without XOR encryption and with any name strings, yields exactly the embedded font bytes. Truncated or unsupported files are rejected with an error.",
 ["inputs"], "all EOT header versions, string lengths, flags and embedded fonts",
 "The one EOT test fails on this tree; nothing else decodes an EOT file successfully.",
 ["eot.go"],
 [("header walk per version and XOR decryption","ParseEOT")],
 ["returned bytes or error"])

prop("C17", "Subsetting preserves the selected glyphs exactly",
 "In a subset font the i-th requested glyph is glyph i and has the same outline, advance, vertical advance, side bearing, name and kerning with other selected glyphs as in the source font, and each code point maps to the same shape as before if its glyph was selected and to nothing otherwise. Glyph 0 keeps its place and metrics but is emptied unless a selected glyph is built from it. Components needed by selected composite glyphs are kept and correctly referenced, whatever the number, order and kind of selected glyphs, the size of their tables, and the kept-tables option; the stated length is that of the written file.",
 ["inputs"], "all fonts x all glyph lists that start with glyph 0 x all kept-table options, including after writing and re-parsing",
 "One test subsets eight glyphs of one TrueType font and compares three lookups; no CFF subset is tested.",
 ["sfnt_subset.go","sfnt_cmap.go","sfnt_cff.go","sfnt_truetype.go"],
 [("glyph renumbering and composite closure","SFNT.Subset"),("subroutine pruning","cffTable subset / ReindexSubrs"),("cmap rebuild","cmapWrite")],
 ["queries on the subset and on its re-parsed bytes vs. the source"])

prop("C18", "Subset and merged fonts are structurally consistent",
 "In every font produced by subsetting or merging, all tables agree with each other: glyph counts, offsets, metric counts, location format, bounding values, maxima, character ranges, kerning and name references are in range and describe the glyphs that are present. The kept-tables option decides which tables appear (tables the library does not interpret are kept only when all tables are), and independent font readers accept the result.",
 ["inputs","histories"], "all fonts x all glyph lists x all table options x subset/merge chains",
 "No test looks at the tables of a produced font.",
 ["sfnt_subset.go","sfnt_merge.go","sfnt_cmap.go","sfnt_cff.go","sfnt_os2.go"],
 [("table rewriting","SFNT.Subset, SFNT.Merge")],
 ["tables of the produced font read by an independent parser"])

prop("C19", "Subsetting leaves the source font unchanged",
 "Subsetting a font, and modifying, renaming, merging into or writing the resulting subset, has no effect on the source font: all its answers, tables and written bytes stay the same. Several subsets can be taken from the same font in any order and each equals the subset taken from a freshly parsed font.",
 ["histories","inputs"], "all sequences of subset, rename, merge and write operations on a font and its subsets",
 "Each test uses a fresh font and only looks at the result.",
 ["sfnt_subset.go","sfnt.go","sfnt_cff.go"],
 [("copies of parsed tables","SFNT.Subset")],
 ["full snapshot of the source font's answers and written bytes before and after"])

prop("C20", "Merging keeps every glyph of both fonts",
 "After a successful merge the first font keeps all its glyphs, numbering, outlines, advances, names, mapping and kerning, and every glyph of the second font is added with its outline, advance and name and, where the mapping is kept, its code points and kerning among its own glyphs. With the rearranging option the glyphs are instead mapped to consecutive code points starting at 33, and incompatible fonts are refused with an error. The result is of fixed pitch only if both fonts are, and its stated length is that of the written file.",
 ["inputs","histories"], "all pairs and chains of compatible fonts, before and after writing and re-parsing",
 "No test merges fonts.",
 ["sfnt_merge.go","sfnt_cff.go","sfnt_cmap.go"],
 [("appending glyf/loca/hmtx/cmap/kern/post/CFF data","SFNT.Merge")],
 ["queries on the merged font and its re-parsed bytes vs. both sources"])

prop("C21", "Merging never changes the added font; failure changes nothing",
 "Merging a font into another leaves the added font's answers and written bytes unchanged, also when the merged font is modified or merged again afterwards. A merge that returns an error leaves the receiving font exactly as it was.",
 ["histories","fault_sequences"], "all merge histories including repeated merges of one donor and failing merges at every stage",
 "No test merges fonts or observes the donor.",
 ["sfnt_merge.go","sfnt_cff.go"],
 [("validation before modification, copies of donor data","SFNT.Merge")],
 ["snapshots of both fonts before and after"])

prop("C22", "One font can be queried concurrently without races",
 "Any number of goroutines may query the same parsed font at the same time (lookups in both directions, names, outlines, metrics, kerning, subsetting, writing), also while other fonts are parsed and changed: there is no data race and each gets exactly the answer it would get alone. Lazily built caches are built once and never seen half-built.",
 ["schedules"], "all interleavings of concurrent read-only operations on one font, including the first use of every cache",
 "All tests are single-threaded.",
 ["sfnt.go","sfnt_cmap.go","sfnt_cff.go","sfnt_truetype.go"],
 [("once-guarded caches","cmapTable.ToUnicode, postTable.Find"),("otherwise immutable parsed state","SFNT")],
 ["race detector reports; answers compared with a sequential run"])

prop("C23", "AFM files are read as written",
 "For every valid AFM file the glyph count, names, code-point mapping, widths, bounding boxes, ligatures, kerning pairs and font-wide metrics are those written in the file, including negative and fractional values. Malformed files give an error, not a partially or wrongly filled font.",
 ["inputs"], "all AFM files following the format x all glyphs and pairs",
 "One test checks five values of one file.",
 ["afm.go","afm_data.go"],
 [("line parser","ParseAFM, parseCharMetrics, parseKernData")],
 ["AFM fields and query methods"])

prop("C24", "System font lookup finds the right installed font",
 "Scanning directories reports every readable font file with the family and style its name data states, skipping unreadable or malformed files without failing. Matching a family list and style returns the first listed family that exists with the exact style or else the nearest weight of the same slant by the documented preference order, generic families expand in place, repeated lookups give the same answer, and saving and loading the index keeps it.",
 ["inputs","histories","configurations"], "all directory trees, font name tables, family lists, styles and call sequences",
 "There is no test of the system font code.",
 ["system.go"],
 [("directory walk and name parsing","FindSystemFonts, getSFNTMetadata"),("matching","SystemFonts.Match"),("style parsing","ParseStyle, ParseStyleCSS, Style")],
 ["FindSystemFonts, Match, Save, LoadSystemFonts, ParseStyle, ParseStyleCSS results"])

prop("C25", "The command line tool does what its options say",
 "The subset command keeps exactly the glyphs selected by IDs, characters, names, code points and Unicode classes plus what they need; the merge and CSS commands output all glyphs of their inputs; the output is in the requested format and encoding, and the info and draw commands report the given font. Invalid options or inputs give an error, a nonzero exit and no damaged output file, and no accepted option value makes the tool crash or hang.",
 ["inputs","configurations"], "all option combinations and range/escape syntaxes x fonts",
 "The command line tool has no tests.",
 ["cmd/fontcmd/subset.go","cmd/fontcmd/merge.go","cmd/fontcmd/css.go","cmd/fontcmd/info.go","cmd/fontcmd/draw.go","cmd/fontcmd/util.go"],
 [("option parsing and glyph selection","Subset.Run"),("format selection","writeFont"),("name templates","fmtName")],
 ["exit code, stdout/stderr and files written by the built binary"])

prop("C26", "The same font gives the same answers in every container",
 "A font opened as plain SFNT, as member of a collection (every index), or wrapped as WOFF, WOFF2 or EOT gives the same answers to all queries, and the detected media type and extension match the container. Converters from other Go font types hand back a font with the same answers, and selecting a nonexistent collection index is an error.",
 ["inputs","configurations"], "all fonts x all containers x all collection indices",
 "Tests compare at most one header field per container, and none opens a collection.",
 ["font.go","sfnt.go","woff.go","woff2.go","eot.go"],
 [("format dispatch","MediaType, ToSFNT, NewSFNTReader"),("collections","parseSFNT"),("converters","FromGoFreetype, FromGoSFNT")],
 ["full query snapshot per container"])

prop("C27", "Writing, subsetting and merging are deterministic",
 "Performing the same operations on the same input bytes always produces byte-identical output, within one process and across processes, regardless of earlier queries on the font. Apart from the documented modification timestamp, no output depends on map iteration order, time or previous calls.",
 ["histories","schedules"], "all fonts x all operation sequences, repeated with randomised map iteration order",
 "Each test produces an output once.",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","woff2.go","sfnt_cff.go"],
 [("sorted iteration before writing","SFNT.Write, WriteWOFF2, Subset, cffTable.Write")],
 ["output bytes of repeated runs"])

prop("C28", "Parsed header and name data equal the file's content",
 "Every field exposed from the font's header tables (global header, horizontal and vertical headers, maximum profile, OS/2 in each version, PostScript data, name records, the Top and Private DICTs of CFF fonts) equals the value stored in the file, or the format's default where it may be left out, with text decoded by its declared encoding. The x-height and cap height that OS/2 versions 0 and 1 lack are the tops of the glyphs of x and H, or zero without such glyphs. Files whose required tables are missing, or in which one of these tables is too short or of an unknown version, are rejected instead of yielding invented values.",
 ["inputs"], "all well-formed fonts x all table versions and field values, including extremes of each field's range",
 "Tests compare nine fields of one font.",
 ["sfnt.go","sfnt_os2.go","sfnt_cff.go"],
 [("table parsers","parseHead, parseHhea, parseVhea, parseMaxp, parseOS2, estimateOS2, parsePost, parseName, nameTable.Get, cffTable.TopDICT, cffTable.PrivateDICT")],
 ["exported fields of the parsed tables"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["statement"].count(". ") > 2: print("LONG", p["id"])
