"""Writes properties.jsonl (kept as a program so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['warcio/' + f for f in files],
                     state=[dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
                     mechanism=[dict(name=n, where='warcio/' + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop('C01', 'Records round-trip through writing and reading',
 "Writing any sequence of WARC records (every record type; WARC 1.0 or 1.1; gzip or plain) and reading the output back yields the same records, in the same order and number: same record type, every WARC header given by the caller with its value and order, same content type, same HTTP protocol, status or request line and (ASCII) HTTP headers including duplicates and order, and byte-identical payload. The default content type is the documented one for the record type unless the caller supplies one. Reading never yields a record that was not written.",
 ['inputs', 'histories', 'configurations'],
 'all sequences of records, all header lists, all payload bytes and sizes (including buffer-size boundaries and payloads that look like WARC/HTTP/gzip data), both versions, gzip or plain',
 'The tests round-trip about fifteen fixed records, one at a time, with payloads of a few bytes; sequences, sizes around the 16 KiB buffer and the 512 KiB spool limit, duplicate headers and adversarial payload bytes are never generated.',
 ['warcwriter.py', 'recordbuilder.py', 'recordloader.py', 'archiveiterator.py', 'statusandheaders.py'],
 [('_write_warc_record', 'warcwriter.py'), ('create_warc_record', 'recordbuilder.py'), ('parse_record_stream', 'recordloader.py')],
 ['records yielded by ArchiveIterator over the bytes a writer produced'])

prop('C02', 'Written archives are well-formed WARC',
 "Every byte stream a WARC writer produces is exactly a concatenation of records, each a version line, header lines, an empty line, precisely Content-Length block bytes and CRLF CRLF; WARC-Type, WARC-Record-ID, WARC-Date and Content-Length each appear exactly once, and record IDs made by the library are distinct urn:uuid URIs. WARC-Date made by the library is the current UTC time, with second precision in WARC/1.0 and microsecond precision in WARC/1.1. In gzip mode every record is exactly one complete gzip member holding nothing else, and the members' decompressed concatenation is a well-formed plain archive.",
 ['inputs', 'histories', 'configurations'],
 'all sequences of write calls over all record types, payloads, header lists, HTTP header blocks, versions and gzip modes',
 'Tests compare a handful of fixed outputs; an independent strict parser over arbitrary outputs is needed to show lengths, terminators and gzip framing are right for every record.',
 ['warcwriter.py', 'recordbuilder.py', 'timeutils.py'],
 [('_write_warc_record / GzippingWrapper', 'warcwriter.py'), ('_init_warc_headers, curr_warc_date', 'recordbuilder.py')],
 ['raw bytes written to the output file object'])

prop('C03', 'Digests written are the digests of what is written',
 "For every record written without caller-supplied digests, WARC-Block-Digest is sha1 (base32) of exactly the block bytes that follow, and WARC-Payload-Digest is sha1 (base32) of exactly the payload (the block without its HTTP headers); warcinfo and revisit records, and records whose HTTP headers were left unparsed in the block, never get a computed payload digest. A digest supplied by the caller on a record whose length is known is written unchanged and not duplicated (unless writing changes the stored HTTP header bytes: then the block digest is that of the new bytes), while for a record of unknown length block and payload digests are recomputed from the data (a revisit keeps its payload digest). Every archive written this way therefore passes the library's own digest verification.",
 ['inputs', 'configurations'],
 'all record types, payloads, HTTP headers (ASCII or not), known and unknown lengths, seekable and unseekable payload streams, presence or absence of caller digests',
 'Tests pin the digests of about fifteen constant records; digest placement over buffer boundaries, spooled payloads, encoded headers and caller-supplied combinations are input-quantified.',
 ['recordbuilder.py', 'warcwriter.py', 'utils.py'],
 [('ensure_digest', 'recordbuilder.py'), ('Digester', 'utils.py')],
 ['WARC-Block-Digest / WARC-Payload-Digest in the bytes written, recomputed independently'])

prop('C04', 'Digest verification is exact',
 "With digest checking on, once a record has been read to its end its verdict is: failed if any checkable digest is wrong (or names an unknown algorithm), passed if at least one was checked and none is wrong, and none when there is nothing to check; this holds for every fixed-size hash algorithm, for base32 (in upper case, as in the RFC), base64, URL-safe base64 and hexadecimal encodings, for empty blocks, and whatever pattern of reads consumed the record. Changing any byte of the block or of a digest value (to one denoting a different hash) turns a pass into a failure that is reported as a problem, never as another error; revisit digests are not checked, nor the payload digest of a segmented record or of one whose HTTP headers are not parsed. Mode 'raise' raises ArchiveLoadFailed, 'log' also writes each problem to stderr, True only records it, and without checking the verdict is always none; the bytes delivered are the same in all modes.",
 ['inputs', 'configurations', 'histories'],
 'all blocks, all algorithm/encoding choices, all single and multiple corruptions, all read patterns, all checking modes',
 'Tests use one algorithm (sha1), three hand-mutated digests and full reads; corruption position, encodings, algorithms and read patterns are unbounded.',
 ['digestverifyingreader.py', 'recordloader.py', 'utils.py', 'limitreader.py'],
 [('DigestVerifyingReader._update / begin_payload', 'digestverifyingreader.py'), ('wrap_digest_verifying_stream', 'recordloader.py'), ('_compare_digest_rfc_3548', 'digestverifyingreader.py')],
 ['record.digest_checker.passed / problems, exceptions, stderr'])

prop('C05', 'Record offsets and lengths locate exactly the record',
 "For every WARC or ARC archive, plain or gzipped per record, the offset reported for each record is where it starts in the underlying stream and the length is the size of its stored form (the whole gzip member; for plain archives the record without the blank lines before or after it). Opening the archive at a reported offset yields that same record and then all following ones with the same offsets, and the slice [offset, offset+length) read on its own yields exactly that record. The values do not depend on when they are asked for, how much of the record was consumed, the read block size, whether the stream is seekable, or where in a larger stream reading began.",
 ['inputs', 'histories', 'configurations'],
 'all archives, all consumption patterns, block sizes, stream kinds and starting positions, including records ending exactly at read-buffer boundaries',
 'Tests check offsets of three example files with a default block size; alignment of record ends with buffer boundaries and early or late queries are never exercised.',
 ['archiveiterator.py', 'bufferedreaders.py', 'indexer.py'],
 [('read_to_end, _consume_blanklines, get_record_offset/length', 'archiveiterator.py'), ('rem_length, read_next_member', 'bufferedreaders.py')],
 ['get_record_offset(), get_record_length(), index output'],
 [('member_info', 'offset and length of the current record once read to end', 'ArchiveIterator'), ('offset', 'running position of the next record', 'ArchiveIterator')])

prop('C06', 'Reading does not depend on how the bytes are delivered',
 "The records delivered from an archive (types, headers, HTTP headers, raw and decoded content, digest verdicts, format) are the same whatever the read block size, however the underlying stream splits its reads (including one byte at a time), whether or not it can seek or tell, and whether the archive is plain or gzipped record by record with any compression level or gzip header fields. A gzip file that holds more than one record in a single member is always reported with ArchiveLoadFailed, never silently read on.",
 ['inputs', 'schedules', 'configurations'],
 'all archives, all partitions of their bytes into reads, all block sizes, all per-record gzip packagings',
 'Tests read ordinary files with the default 16 KiB block; short reads and odd block sizes as produced by sockets and pipes are not covered.',
 ['archiveiterator.py', 'bufferedreaders.py', 'recordloader.py'],
 [('BufferedReader._fillbuff/_decompress/readline', 'bufferedreaders.py'), ('UnseekableYetTellable', 'archiveiterator.py'), ('_raise_invalid_gzip_err', 'archiveiterator.py')],
 ['records yielded by ArchiveIterator / WARCIterator / ARCIterator'])

prop('C07', 'How much of one record is read never affects another',
 "While iterating over an archive, a consumer may read any part of each record's raw or decoded stream by any mixture of sized reads, unsized reads and line reads (or nothing), ask for offsets, or read it to the end; every read returns the next bytes of that record's own block and never a byte beyond it, and the raw stream's position reports how much of the block has been consumed. The sequence of records, their headers and contents is the same for every such history. A record stream that is exhausted returns empty, and after the last record iteration stops.",
 ['histories', 'inputs'],
 'all archives and all sequences of read/readline/skip/offset operations on each record',
 'Tests either read a record completely or not at all.',
 ['archiveiterator.py', 'limitreader.py', 'recordloader.py', 'bufferedreaders.py'],
 [('read_to_end', 'archiveiterator.py'), ('LimitReader.read/readline', 'limitreader.py')],
 ['bytes returned by record.raw_stream / content_stream(), sequence of records'])

prop('C08', 'Decoded content equals the original content',
 "For an HTTP record whose payload was correctly encoded with any supported content encoding (gzip, deflate with or without zlib header, brotli when available, or none; name in any letter case) and optionally chunked transfer encoding (any split into chunks, either case of hex sizes, chunk extensions, leading zeros), the decoded content stream returns exactly the original content, for any sequence of sized, unsized and line reads. With no encoding declared, or one that is not supported, it returns the payload (dechunked if chunked) unchanged. The raw stream is never altered by decoding: it always returns the payload as stored.",
 ['inputs', 'configurations', 'histories'],
 'all contents, all encodings and compression parameters, all chunk splits (including 1-byte chunks across compression headers), all read patterns',
 'Tests decode a few fixed strings with one or two chunks.',
 ['recordloader.py', 'bufferedreaders.py'],
 [('content_stream', 'recordloader.py'), ('ChunkedDataReader', 'bufferedreaders.py'), ('_decompress', 'bufferedreaders.py')],
 ['bytes returned by content_stream()'])

prop('C09', 'Mis-declared or truncated content degrades without inventing bytes',
 "Content declared chunked but not starting with a chunk-size line, or declared compressed but whose data is not in that compression format as far as its first two bytes tell, is returned unchanged. Correctly encoded content that is cut off at any byte (for chunked content: after its first chunk-size line) yields a prefix of the original content and then ends, without an exception; what is yielded of chunked content includes all data of the chunks that are present. A strict chunk reader raises ChunkedDataException for every cut inside a chunk and every malformed chunk header or terminator, and never for well-formed input; the default one never raises.",
 ['inputs', 'fault_sequences', 'crash_points'],
 'all contents, all cut points, all non-conforming payloads, all read sizes and underlying read splits',
 'Tests use five fixed malformed payloads.',
 ['bufferedreaders.py', 'recordloader.py'],
 [('ChunkedDataReader._try_decode/_fillbuff', 'bufferedreaders.py'), ('_decompress fallback', 'bufferedreaders.py')],
 ['bytes returned by / exceptions from ChunkedDataReader, BufferedReader, content_stream()'])

prop('C10', 'Buffered, decompressing and limited readers behave like files',
 "For any underlying bytes, block size, delivery pattern and sequence of read(n), read(), readline(n) and readline() calls, the buffered reader returns exactly what the same calls on an in-memory file of the (decompressed) bytes would return, except that a gzip member's end is an end of input until the next member is requested (or is passed over automatically when all members are asked for); its position counts the bytes decoded so far and the reported remainder plus the bytes consumed accounts for every byte taken from the stream, which is never asked for more than a block at once and is closed with the reader. A length-limited reader returns exactly what the same calls on the first N bytes would return, reports the bytes consumed as its position, never consumes more than N bytes of the underlying stream for any argument including negative sizes, and nesting limits takes the smaller.",
 ['inputs', 'histories', 'configurations'],
 'all byte strings, member splits, block sizes and call sequences',
 'Tests run a few fixed call sequences on short strings.',
 ['bufferedreaders.py', 'limitreader.py'],
 [('BufferedReader.read/readline/empty/read_next_member/rem_length', 'bufferedreaders.py'), ('LimitReader', 'limitreader.py')],
 ['return values of read/readline/tell/rem_length'])

prop('C11', 'Header blocks parse and serialise faithfully',
 "Parsing a serialised status line and header block gives back the same protocol, status line and header list (names, values, order, duplicates, UTF-8 text), and leaves the stream exactly at the first byte after the blank line. Parsing accepts LF or CRLF line ends, optional whitespace around the colon, continuation lines (appended to the value), lines without a colon (ignored) and bytes that are not UTF-8 (taken as Latin-1); serialising the result and parsing again changes nothing. A block whose first line does not start (case-insensitively) with an expected prefix raises the parser's exception when verifying, is accepted when not, and an empty stream raises EOFError.",
 ['inputs', 'configurations'],
 'all status lines, header lists and line-ending / whitespace / folding variations, all prefix lists',
 'Tests parse four fixed header blocks.',
 ['statusandheaders.py'],
 [('StatusAndHeadersParser.parse/split_prefix/decode_header', 'statusandheaders.py'), ('to_str/to_bytes', 'statusandheaders.py')],
 ['StatusAndHeaders fields, stream position after parsing'])

prop('C12', 'Header collections act as ordered case-insensitive multimaps',
 "Under any sequence of add, get, replace, set, delete, membership, range, status-line validation, comparison and serialisation operations, a header collection equals a model that keeps an ordered list of (name, value) pairs compared case-insensitively: get returns the first match or the default, replace changes the last match in place keeping its name and returns the old value or appends, delete removes only the last match and tells whether there was one. Other headers and their order are never disturbed, names keep the case they were given with, and byte or text, list or mapping inputs are normalised to text pairs.",
 ['histories', 'inputs'],
 'all operation sequences over all header names differing in case, duplicates included',
 'Tests make one short sequence of calls.',
 ['statusandheaders.py', 'utils.py'],
 [('get_header/replace_header/remove_header/add_range/validate_statusline', 'statusandheaders.py'), ('headers_to_str_headers', 'utils.py')],
 ['results of StatusAndHeaders methods'])

prop('C13', 'Non-ASCII HTTP headers are written as recoverable ASCII',
 "Whatever text HTTP headers contain, writing the record succeeds and the HTTP header block written is pure ASCII; headers that already are ASCII are written unchanged, and every non-ASCII value is percent-encoded as UTF-8 (the parameter values as RFC 8187 name*=UTF-8''... when the value has parameters) so that decoding recovers the text. The Content-Length and block digest written describe the encoded bytes, and writing again after reading back changes nothing more. A header filter given to the writer removes or rewrites exactly the headers it says, in WARC output only for HTTP headers, with lengths and digests still right.",
 ['inputs', 'configurations'],
 'all header names and values in Unicode or Latin-1, parameterised or not, all filters',
 'Tests pin four constant headers.',
 ['statusandheaders.py', 'warcwriter.py'],
 [('to_ascii_bytes, percent_encode_non_ascii_headers', 'statusandheaders.py'), ('header_filter', 'warcwriter.py')],
 ['HTTP header bytes in written records'])

prop('C14', 'ARC archives are read faithfully and convert to WARC',
 "Every record of a well-formed ARC file (plain or gzipped per record, URLs with spaces, the blank lines after a record optional in gzipped files and after the last record) is delivered once, in order, with its URL, IP address, date, content type and length, the file header record as arc_header and all others as response, with HTTP headers parsed for http(s) URLs and exactly its bytes as content. With on-the-fly conversion the same records appear as WARC: the file header as warcinfo named after the file, others as response with target URI, IP address, ISO date of the 14-digit timestamp, HTTP content type and the same content; writing them gives a valid WARC with the same content and correct lengths. An iterator restricted to WARC rejects ARC and vice versa with ArchiveLoadFailed.",
 ['inputs', 'configurations'],
 'all ARC files: URLs, timestamps, types, contents, separators, gzip packagings, both conversion modes',
 'Tests use three example ARC files with one response each.',
 ['recordloader.py', 'archiveiterator.py', 'timeutils.py'],
 [('ARCHeadersParser, ARC2WARCHeadersParser', 'recordloader.py')],
 ['records yielded by ArchiveIterator with and without arc2warc'])

prop('C15', 'Recompressing yields the same records, one gzip member each',
 "Recompressing any readable WARC or ARC, whether plain, correctly gzipped, gzipped as a whole, gzipped several records to a member or split at arbitrary places into members, produces a file in which every record is its own gzip member and which has the same records in the same order with the same headers and content (ARC records converted), correct lengths, and digests that verify if they did before. The reported count is the number of records and the message says whether compression errors were fixed. Recompressing the output again changes nothing, the input file is never modified, and input that is not an archive ends with exit status 1 and a failure message.",
 ['inputs', 'configurations'],
 'all archives and all gzip packagings of their bytes; all non-archive inputs',
 'Tests recompress four example files.',
 ['recompressor.py', 'bufferedreaders.py', 'archiveiterator.py', 'warcwriter.py'],
 [('load_and_write, decompress_and_recompress', 'recompressor.py'), ('read_all_members', 'bufferedreaders.py')],
 ['output file bytes, stdout, exit status of warcio recompress'])

prop('C16', 'The index lists every record with the requested fields',
 "Indexing any set of archives writes exactly one JSON object per record, in file and record order, whose keys are the requested fields that exist for that record, in the requested order, and whose values are strings: the record's offset and length in the file, the base name of the file, WARC headers by case-insensitive name, HTTP headers by http:name, and the HTTP status of responses and revisits. Field selection never changes other fields' values (asking for HTTP fields does not change offsets), ARC records are indexed through their WARC equivalents, and the offsets can be used to read the records.",
 ['inputs', 'configurations'],
 'all archives, all field lists and orders, all multi-file runs, default and custom fields',
 'Tests index four example files with three field lists.',
 ['indexer.py', 'archiveiterator.py', 'cli.py'],
 [('process_index_entry, get_field', 'indexer.py')],
 ['lines written by warcio index / Indexer'])

prop('C17', 'Extract prints exactly the record at the offset',
 "For every record of every archive, extracting at its offset outputs the record headers followed by the HTTP headers, if any, and the stored payload: for canonically formatted records exactly the record's bytes without the trailing separator. The headers-only form outputs exactly the header part, the payload-only form exactly the decoded content, and nothing of any other record is ever output.",
 ['inputs', 'configurations'],
 'all archives (plain, gzip, ARC), all record positions, the three output forms, payloads larger than the copy buffer',
 'Tests extract three records of the example files.',
 ['extractor.py', 'archiveiterator.py', 'statusandheaders.py'],
 [('Extractor.extract', 'extractor.py')],
 ['stdout bytes of warcio extract'])

prop('C18', 'The check command reports exactly the bad records',
 "The check command's exit status is 0 if every checkable digest in every given file is right and every file can be read as an archive, and 1 otherwise, whatever the order of the files and records. Its output names exactly the records with a wrong digest, with their offset, ID and type, under their file name; in verbose mode every record is listed with pass, no digest, or not checked (revisit). A file that stops being readable is reported and does not prevent later files from being checked.",
 ['inputs', 'configurations', 'histories'],
 'all sets of files, all combinations of right, wrong, malformed, absent digests and unreadable files, in all orders',
 'Tests check the example files and one bad record.',
 ['checker.py', 'digestverifyingreader.py', 'cli.py'],
 [('Checker.process_all/process_one', 'checker.py')],
 ['stdout and exit status of warcio check'])

prop('C19', 'HTTP capture records each exchange byte for byte',
 "For any HTTP exchanges made through the patched http client inside a capture context (one after another, or overlapping on different connections; over any mix of new and reused connections, direct, proxied or tunnelled, request bodies as bytes or chunked iterables, responses with Content-Length, chunked, close-delimited or empty), the archive gains for each completed exchange exactly one response record followed by its request record, in order of completion. Their blocks are the bytes the server sent and the bytes the client sent for that exchange (HTTP header lines in the usual 'Name: value' form), however the client reads the response (sized, unsized, line, readinto or partial-line reads) to its end; the target URI is the requested URL (scheme, host, non-default port, path), and the request shares the response's URI and date and refers to its record ID. The remote IP address is recorded exactly when enabled, and a proxy is named in the proxy header.",
 ['histories', 'inputs', 'configurations', 'schedules'],
 'all sequences of exchanges, connection reuse patterns, body framings, client read patterns, TCP segmentations, proxy modes, writer options',
 'Tests make a dozen requests through the requests library, which reads responses in one way.',
 ['capture_http.py', 'warcwriter.py'],
 [('RecordingStream, RecordingHTTPConnection, RequestRecorder', 'capture_http.py'), ('write_request_response_pair', 'warcwriter.py')],
 ['records in the capture writer vs bytes seen by a loopback server'],
 [('RequestRecorder', 'request/response buffers of the exchange in progress', 'capture_http.py')])

prop('C20', 'HTTP capture is transparent, scoped and filterable',
 "Client code sees the same responses (status, headers, body, line by line or through file wrappers) inside a capture context as outside it, even if a filter or writer drops the records. Connections created outside a capture context or in another thread than the one that entered it are not recorded, concurrent captures in different threads each record only their own traffic, and after the context ends (also by an exception) no new connection is recorded; a connection still open goes on working. A filter that returns nothing causes nothing to be written for that exchange, substituted records are written instead (a filter may itself make requests, which are captured too), and a file name target is appended to by default (keeping what it held) or must not exist when append is off.",
 ['histories', 'schedules', 'configurations', 'inputs'],
 'all interleavings of captured and uncaptured requests across threads and nested or successive contexts, all filter decisions, all writer targets',
 'Tests run single-threaded captures with three filters.',
 ['capture_http.py'],
 [('capture_http context manager, thread-local recorder', 'capture_http.py'), ('RequestRecorder.done', 'capture_http.py')],
 ['client-visible results, archive contents'])

prop('C21', 'A truncated archive still yields every complete record',
 "If an archive (WARC or ARC, plain or gzipped per record) is cut off at any byte, as by a crash or an interrupted download, then every record that lies completely before the cut is delivered unchanged with its offset. After those at most one more record is delivered, whose stored bytes and content are a prefix of the true ones (chunked content cut inside its first chunk-size line is given as stored); then iteration ends, normally or with ArchiveLoadFailed (or, when HTTP verification was asked for, the header parser's exception), and nothing is invented, duplicated or looped on. With digest checking, no digest failure is reported for complete records and none of the truncated content passes verification as complete unless it is.",
 ['crash_points', 'inputs', 'configurations'],
 'all archives and all cut positions, all packagings and read options',
 'Tests have one truncated example file.',
 ['archiveiterator.py', 'bufferedreaders.py', 'recordloader.py', 'digestverifyingreader.py'],
 [('_iterate_records EOF handling', 'archiveiterator.py'), ('_fillbuff at end of data', 'bufferedreaders.py')],
 ['records yielded from every prefix of an archive'])

prop('C22', 'Malformed input is rejected cleanly',
 "For any byte string at all, iterating over it and reading every record's raw and decoded content terminates with a bounded number of records, and either completes or raises ArchiveLoadFailed (or, only when HTTP verification was asked for, the header parser's exception); no other exception escapes and no content byte is delivered twice. A damaged or unparsable record does not alter the records before it, invalid or negative lengths are treated as empty, and a record whose length field is wrong is counted in the iterator\'s error count and warned of on standard error, with the offset of what follows it, when it is not followed by a record boundary.",
 ['inputs', 'configurations', 'fault_sequences'],
 'all byte strings, in particular all mutations of valid plain and gzipped WARC and ARC files, with every combination of reading options',
 'Tests feed three bad files.',
 ['archiveiterator.py', 'recordloader.py', 'bufferedreaders.py', 'statusandheaders.py', 'limitreader.py'],
 [('_detect_type_load_headers, parse_record_stream length handling', 'recordloader.py'), ('_consume_blanklines', 'archiveiterator.py')],
 ['exceptions, records and err_count of ArchiveIterator'])

prop('C23', 'Revisit, warcinfo and request/response records carry their links',
 "A revisit record states the given payload digest, original URI and date and the profile of its WARC version, and its block is exactly the HTTP headers given (or empty), never a payload; an empty digest is refused. A warcinfo record holds exactly the non-empty fields given, in order, as UTF-8 'name: value' lines, with the file name if given. Writing a request and response together writes the response first and makes the request carry the response's URI, date and a reference to its record ID, leaving both blocks and the response's headers unchanged.",
 ['inputs', 'configurations'],
 'all URIs, digests, dates, field maps, HTTP headers, versions and gzip modes',
 'Tests use one constant instance of each.',
 ['recordbuilder.py', 'warcwriter.py'],
 [('create_revisit_record, create_warcinfo_record', 'recordbuilder.py'), ('write_request_response_pair', 'warcwriter.py')],
 ['records read back and raw bytes written'])

prop('C24', 'Each write is complete, appended and flushed',
 "When a write call returns, everything needed to read the record back has been written to the output and flushed, the bytes written before are untouched, and the file as it stands is a complete archive of the records written so far; writing records one at a time gives the same bytes as the concatenation of writing each alone. If the output or the payload source fails at any point, the error reaches the caller, the bytes of the records written before remain intact and readable, and a write to a fresh output afterwards works. The in-memory writer returns the full contents at any time without disturbing later writes.",
 ['histories', 'fault_sequences', 'crash_points'],
 'all sequences of writes, all failure points of the output and payload streams, gzip and plain',
 'Tests never inject failures and look at the output only at the end.',
 ['warcwriter.py', 'recordbuilder.py'],
 [('_write_warc_record flush, GzippingWrapper.flush', 'warcwriter.py'), ('BufferWARCWriter.get_contents', 'warcwriter.py')],
 ['bytes on the output after each call, exceptions'])

prop('C25', 'Copying an archive preserves it and is stable',
 "Reading records (with or without parsing HTTP headers, with digest checking on or off) and writing them with a writer gives records with the same WARC version (whichever the writer makes new records with), type, WARC headers (values and relative order, apart from digests or length being added or corrected), HTTP headers (non-ASCII ones percent-encoded) and block: canonical blocks are copied byte for byte, including records of unknown type, revisits of any URI and records without HTTP headers. Where writing changes HTTP header bytes, length and digests describe the new bytes. Copying a copy reproduces it exactly, and partially read or unread records after iteration advances are not mixed up.",
 ['inputs', 'configurations', 'histories'],
 'all archives from any producer (canonical or merely valid headers), parse options, gzip modes, repeated copies',
 'Tests copy each sample record once.',
 ['warcwriter.py', 'recordbuilder.py', 'recordloader.py'],
 [('_write_warc_record', 'warcwriter.py'), ('ensure_digest', 'recordbuilder.py')],
 ['bytes of the copy compared with the source by an independent parser'])

prop('C26', 'How a payload is supplied does not change the record',
 "The record written for given content is the same whether the payload is a seekable stream with its length, a stream without a length, an unseekable or short-reading stream, or a stream positioned past its start; whether HTTP headers are given separately or at the front of the payload; whether it was built by a writer or by a standalone record builder; whether or not digests were ensured beforehand, and whether or not the record was written before, even with other HTTP headers or by a writer with another header filter. A record read from a source without Content-Length (a streaming record) is written with the right length and digests. Building and ensuring digests does not lose, reorder or duplicate payload bytes whatever the size (including beyond the in-memory spool limit).",
 ['inputs', 'configurations', 'histories'],
 'all payloads and sizes, all ways to supply them, all record types',
 'Tests supply short in-memory payloads in two ways.',
 ['recordbuilder.py', 'warcwriter.py', 'recordloader.py'],
 [('create_warc_record length handling, ensure_digest buffering', 'recordbuilder.py')],
 ['bytes written'])

prop('C27', 'Tools give the same result however the archive is reached',
 "Index, check, extract and recompress produce the same output for the same archive bytes given as a local path, a remote-filesystem URL (any fsspec filesystem) or, where supported, standard input (index) or an already open file; output files named by path or URL hold exactly what would go to standard output. Opening '-' or no name gives the default stream without closing it, an open object is passed through without closing it, a path or URL is opened in the mode asked and closed on exit, also on error.",
 ['configurations', 'inputs'],
 'all archives, all tools and options, all ways of naming input and output',
 'Tests use local paths, and remote ones only with live services.',
 ['utils.py', 'indexer.py', 'checker.py', 'extractor.py', 'recompressor.py', 'cli.py'],
 [('fsspec_open', 'utils.py')],
 ['stdout, output files, exit status'])

prop('C28', 'Date conversions are consistent inverses',
 "For every date-time between years 1000 and 9999, with or without a time zone, converting to ISO date (second or microsecond precision), HTTP date or (years 1900-2999) 14-digit timestamp and back returns the same instant to that precision, independent of the local time zone and with UTC time zone exactly when asked; the conversions between these text forms and epoch seconds (a fraction of which is cut off) commute. ISO fractions of any number of digits are read as microseconds (padded or truncated). Any digit string is accepted as a timestamp: missing trailing fields are padded to their latest value, fields out of range are clamped to a valid date between 1900 and 2999, and text order of full timestamps is time order.",
 ['inputs', 'configurations'],
 'all date-times, all fraction lengths, all digit strings of every length, all time zones of the process',
 'Doctests check about forty constants.',
 ['timeutils.py'],
 [('timestamp_to_datetime clamp/extract', 'timeutils.py'), ('iso_date_to_datetime', 'timeutils.py')],
 ['return values of the conversion functions'])

prop('C29', 'Target URIs are normalised on reading and nothing else is',
 "When a WARC record is read, a WARC-Target-URI wrapped in angle brackets is given without them and every space in it is given as %20; any other URI text is given unchanged, as are all other headers. The normalised URI is what decides whether HTTP headers are parsed (http and https only, for response, request and revisit records), what the index shows and what is written when the record is copied. Records of other schemes or types never have HTTP headers parsed, so their whole block is their content.",
 ['inputs', 'configurations'],
 'all URI texts (brackets, spaces, Unicode, schemes), record types and read options',
 'Tests have one example file for each of the two repairs.',
 ['recordloader.py'],
 [('_ensure_target_uri_format, load_http_headers', 'recordloader.py')],
 ['rec_headers and http_headers of records read, copies and index lines'])

prop('C30', 'Reading options change only what they say',
 "Every combination of reading options delivers the same records, in the same order, with the same types, record headers, offsets and lengths. Not parsing HTTP headers only leaves them at the front of the record's stream; supplying HTTP headers gives a record without parsed ones 'HTTP/1.0 200 OK' with its Content-Type (if any) and Content-Length, leaving its stream unchanged, and never touches parsed ones; ARC conversion changes only the headers of ARC records; verification of HTTP headers only refuses (with StatusAndHeadersParserException, the earlier records delivered) a message that starts neither with an HTTP/1.x version nor, for a request, with a known method; digest checking and block size change nothing. With ARC conversion, WARC and ARC records may be mixed in one file; without it, and for the WARC- and ARC-only iterators, a record of another format is refused with ArchiveLoadFailed. The record loader on its own loads the same record from the same bytes, whether or not its first line was read before and its format given.",
 ['inputs', 'configurations'],
 'all WARC and ARC archives (plain, gzipped, mixed), all combinations of no_record_parse, verify_http, arc2warc, ensure_http_headers, block_size and check_digests, all iterator classes and direct use of the loader',
 'Tests try each option alone on one or two example files; what an option must leave alone, and combinations of options, are never checked.',
 ['archiveiterator.py', 'recordloader.py', 'statusandheaders.py'],
 [('parse_record_stream, _detect_type_load_headers, default_http_headers', 'recordloader.py'), ('ArchiveIterator, WARCIterator, ARCIterator', 'archiveiterator.py')],
 ['records delivered under each combination'])

prop('C31', 'Readers, writers and records are independent of each other',
 "Any number of readers, writers, copies, tools and records may be used in turn, in any interleaving, or at the same time in different threads, each on its own streams: every one of them gives exactly what it gives alone, also when another fails on a damaged archive or edits the headers of its own records. Objects given by the caller (header mappings and lists, header objects with ASCII headers, info mappings, payload bytes) are not modified, may be used again for any number of records, which are then written identically, and later changes of a record do not reach them or any other record.",
 ['histories', 'schedules', 'inputs'],
 'all interleavings of all such users over all archives and records; all reuse of caller objects',
 'Tests use one reader or writer at a time and fresh objects each time; shared state between instances shows only in interleaved or repeated use.',
 ['archiveiterator.py', 'recordloader.py', 'recordbuilder.py', 'warcwriter.py', 'statusandheaders.py', 'digestverifyingreader.py', 'bufferedreaders.py'],
 [('state held per instance', 'recordloader.py'), ('_init_warc_headers, create_revisit_record', 'recordbuilder.py')],
 ['everything delivered or written by each user, caller objects before and after'])

prop('C32', 'Records of any size are streamed',
 "Reading (raw, decoded, by lines, skipped, with digest checking), writing (payload length known or not, seekable or not), copying, indexing, checking, extracting, recompressing and capturing a record never holds the record in memory: the memory used and the size of single reads and writes stay below a fixed bound (4 MB and 2 MB) that does not grow with the record, whose bytes are all processed correctly; only one line, one chunk of chunked content or the expansion of one compressed block is held at once. A record from a stream that arrives piece by piece is delivered as soon as its headers have arrived, and its payload bytes as soon as they have: the reader never asks the stream for more while it has what was asked for.",
 ['inputs', 'configurations', 'schedules'],
 'all record sizes, encodings, packagings, stream kinds, operations and arrival patterns',
 'No test handles a record above 600 KB or looks at memory or read-ahead; a change that buffers a whole record or waits for more data passes all of them.',
 ['bufferedreaders.py', 'limitreader.py', 'archiveiterator.py', 'recordbuilder.py', 'warcwriter.py', 'checker.py', 'extractor.py', 'recompressor.py', 'capture_http.py'],
 [('_fillbuff', 'bufferedreaders.py'), ('_iter_stream, _create_temp_file', 'recordbuilder.py'), ('read_to_end', 'archiveiterator.py')],
 ['peak of allocated memory (tracemalloc), requests made to the source and sizes written to the sink'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
