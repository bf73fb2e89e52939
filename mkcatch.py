"""Rewrites the table of planted bugs at the end of DESIGN.md (not part of any check)."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
d = open(os.path.join(here, 'DESIGN.md')).read()
head = d.split('## Planted bugs and what catches them')[0]
rows = []
for p in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    m = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
open(os.path.join(here, 'DESIGN.md'), 'w').write(head + '''## Planted bugs and what catches them

Each was written from the text of a property and the code, passes the existing tests, and is kept
whether or not it was caught at first. Each is caught by the quick check of the property named
(checked with `VK_REPO` pointing at a patched copy, and by `vcheck`, which runs twelve of them picked
at random). Missed at first, and what was strengthened: c31-shared-default (earlier records of a
reader are now looked at again after each step, `ensure_http_headers` is an option there),
c19-flush (the client also calls everything a response offers that does not read), c02-date-cache
(sub-check `dates`), c12-index (operations that encode in place), c22-hdrs (sub-check `many`),
c25-hdr-len (records only looked at before they are written), c18-samefile (files given twice), c14-tail
(ARC files put together), c20-parser-state (caught, but not reproducible, which then was an error), c16-query and c27-bare (odd
file names), c32-upload (request bodies from files and iterators), c24-gz-reuse and c24-contents-cache
(several looks of different kinds per write, outputs taken over after a failure), c14-basename and
c14-ctype (ARC file names with paths, content types), c01-type-lower, c03-seg, c08-enc-space (usual WARC
headers, types and encodings in the generators), c06-tell-exc (sources that refuse with other
exceptions), c20-filter-lock (a filter that makes requests), c23-info-strip (field values of white
space, booleans, zeroes), c25-date (a writer of the other WARC version), c13-quote (apostrophes in parameters), c27-mode ($ in file
names), c28-epoch (fractions of epoch seconds), c10-case (encodings named in upper case).

| planted bug | caught by | needs | breaks |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
