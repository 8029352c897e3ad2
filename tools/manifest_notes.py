NOTE.update({
 'C12': ('history monitor: independent SFNT validator on every written file, recorded answers compared with those of the re-read font', 'Random histories of subset, merge, rename and query on generated and real fonts.'),
 'C17': ('model-based monitor: every answer of the subset, in memory, re-read and read independently, compared with a model of the source', 'Random glyph lists and table options, repeated subsetting.'),
 'C18': ('structural monitor: independent validator of cross-table consistency, plus three independent font readers', 'Subset and merged fonts; bounding values are checked as bounds.'),
 'C19': ('history monitor: recorded answers and bytes of the source before and after subsets are taken, modified and merged', 'Also compares each subset with one of a freshly parsed font.'),
 'C20': ('model-based monitor: every answer of the merged font compared with a model that joins independent readings of both', 'Repeated merges, rearranged or not; refusals predicted by the model.'),
 'C21': ('history monitor: recorded answers and bytes of both fonts around merges that succeed or fail', 'Including modification of the result afterwards.'),
})
NOTE.update({
 'C22': ('race detector plus answer monitor: goroutines that share a fresh font against sequential answers', 'Random orders, start barriers, yields and delays; the schedules are those the runtime produces.'),
 'C27': ('repetition monitor: byte comparison of all outputs of random histories, within a process, with queries in between, at another time and in other processes', 'Only the modification time and the checksums that cover it are blanked.'),
})
NOTE.update({
 'C13': ('reference monitor: independent WOFF encoder with every layout choice; decoded tables or whole files compared, damage must be rejected or leave the tables as they were', 'The checksum adjustment of head is recomputed by the decoder; version and tags are not covered by any redundancy of the format.'),
 'C14': ('reference monitor: independent WOFF2 encoder that takes every choice of the format; tables, glyphs and metrics compared; forbidden structures must be rejected', 'Collections are not supported by the library; overlap is a property of glyphs.'),
 'C15': ('reference monitor: independent strict WOFF2 decoder and the library decode every written file; both compared with the font', 'Subset, merged, renamed, stretched and real fonts.'),
 'C16': ('reference monitor: independent EOT encoder; decoded bytes compared; truncated and unsupported files must be rejected', 'MTX compression is refused by the library by design.'),
 'C26': ('reference monitor: recorded answers of the plain font compared with those through each container, reader and converter', 'FromGoFreetype keeps only the tables that freetype keeps; those answers are compared.'),
})
NOTE.update({
 'C01': ('crash, hang and result monitor around every parser under damaged, spliced and purpose-built hostile files', 'Worker processes with CPU and memory limits; panics, fatal errors and timeouts are violations.'),
 'C02': ('crash and hang monitor around every operation of fonts that a parser accepted although they were damaged', 'Includes the results of subsetting and merging; outlines have a limit of events.'),
 'C03': ('allocation monitor: bytes allocated by each parser against a bound from the input size and the limit', 'Cumulative allocation is measured, which is at least the memory in use.'),
 'C04': ('memory protection monitor: inputs and arguments lie in pages mapped read-only, writes trap; reopened fonts compared', 'Spare capacity of the slices is protected as well.'),
 'C23': ('reference monitor: independent AFM model and the Adobe Glyph List; damaged files must be rejected or read the same', 'Generated files with every keyword, layout and line ending.'),
})
NOTE.update({
 'C24': ('reference monitor: scanned directory trees against what was written into them; histories of additions, lookups and saving against a model of the index', 'Names on other platforms than Windows, symbolic links and unknown style names are not judged.'),
 'C25': ('black-box monitor of the built tool: every file that it writes is decoded and compared with a model of what the options select; files and exit status are observed around invalid command lines', 'All commands; option syntax of the argument parser itself is not judged; images are compared at pixels that the outline does not touch.'),
})
