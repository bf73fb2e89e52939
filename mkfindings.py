"""Writes known_findings.jsonl: the defects found and repaired in /repo ("fixed" entries suppress nothing)."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
F = [
 ('C06 C08 C09', "don't lose bytes when content turns out not to be compressed only after more than one read",
  'content declared compressed whose first bytes arrived in several short reads and turned out not to be compressed lost the bytes already read'),
 ('C22 C21', 'read response, request and revisit records that have no WARC-Target-URI',
  'a response/request/revisit record without WARC-Target-URI raised AttributeError while reading'),
 ('C04', 'accept md5 digests in hexadecimal', 'md5:<32 hex digits> was decoded as base64 or base32 and reported wrong'),
 ('C04 C18', 'a malformed digest value is a wrong digest, not an error', 'a digest value that decodes with no encoding raised binascii.Error out of the reader'),
 ('C04', 'report digests of variable-size hashes as unknown instead of failing', 'shake_128 digests raised TypeError at the end of the record'),
 ('C04 C03', 'verify the block digest of empty records', 'a wrong block digest on a record with an empty block was never noticed'),
 ('C10', 'LimitReader: a negative size means up to the limit, not beyond it', 'LimitReader.read(-1) and readline(-1) read past the limit'),
 ('C10', 'BufferedReader: a negative size means no limit, as for other files', 'BufferedReader.read(-1) returned nothing and readline(-1) stopped at a block end'),
 ('C22', 'read records whose Content-Length does not fit a machine word', 'Content-Length: 99999999999999999999 raised OverflowError'),
 ('C13', 'write any non-ascii text in HTTP headers percent-encoded instead of failing', 'non-ASCII text in the status line, a header name or a value with parameters raised or was written as non-ASCII'),
 ('C25', 'write the block of a revisit record whose HTTP headers are not parsed', 'copying a revisit of a non-http URI (or with no_record_parse) dropped its block but kept its Content-Length'),
 ('C19', 'record only the bytes that were read into a buffer', 'readinto() under capture recorded the whole buffer, not only the bytes read'),
 ('C20', 'support read1() and peek() of captured responses', 'response.read1()/peek() failed inside a capture'),
 ('C26', 'compute the right length when HTTP headers are parsed from a payload not at its start', 'a payload stream positioned past its start, HTTP headers inline: wrong Content-Length'),
 ('C08', 'compare the chunked transfer encoding case-insensitively', 'Transfer-Encoding: Chunked was not dechunked'),
 ('C10 C05 C06', 'BufferedReader.readline(n) returns up to n bytes even when the line spans several blocks', 'readline(n) spanning a block boundary returned fewer bytes than asked though the line went on'),
 ('C06', 'report a gzip member with several records even if other members follow it', 'a member with two records followed by other members was read on silently, losing or merging records'),
 ('C09', 'a negative number is not a chunk size', 'a chunk size line "-5" made the reader read to the end of the stream'),
 ('C09', "don't return chunk framing as content when chunked data is cut off in or next to it", 'content cut inside a chunk-size line or terminator returned the framing bytes as content'),
 ('C04', "don't fail the payload digest of a record whose HTTP headers are not parsed", 'no_record_parse with digest checking reported every HTTP record payload digest as wrong'),
 ('C10', 'LimitReader position stays right when a smaller limit is nested', 'wrapping a LimitReader with a smaller limit broke tell()'),
 ('C10 C15', "don't stop at an empty gzip member when reading all members", 'an empty gzip member ended reading: the rest of the file was lost (recompress too)'),
 ('C13 C15 C25', 'recompute the block digest when HTTP headers are written differently than they were stored', 'copying a record whose HTTP header bytes change kept the old block digest, which then fails'),
 ('C12', 'headers that have an empty value are in the headers', 'a header with an empty value was reported as absent by `in`'),
 ('C12 C11', 'compare header collections that have no status line and headers', 'comparing with an object of another class raised AttributeError'),
 ('C11', 'no leading space in header values that start on a continuation line', 'a header whose value starts on the continuation line gets a leading space, which is lost on re-reading'),
 ('C14', 'compute the length of an ARC header record that has non-ascii header lines', 'converted ARC file header with non-ASCII lines: Content-Length counts characters'),
 ('C15 C05', 'blank lines at the start of a file or gzip member are not a record', 'blank lines before the first record or at the start of a member ended iteration or failed'),
 ('C15', 'recompress: notice gzip members that end inside a record', 'a gzip file split inside a record was recompressed to truncated records, reported as success'),
 ('C19', 'bracket IPv6 addresses in captured urls', 'http://[::1]/ was recorded as http://::1/'),
 ('C20 C19', 'capture exchanges with any request method or HTTP version', 'request methods beyond the usual list or unusual response versions made the capture raise in client code or lose the exchange'),
 ('C19', 'capture: tunnel, proxy and IP address are those of the connection, not of an earlier one', 'the IP address, proxy or tunnel host of an earlier connection leaked into later records'),
 ('C20 C19', 'capture: send text files and iterables as http.client does', 'a text-file or iterable request body failed or was mis-recorded inside a capture'),
 ('C20', 'captured responses have a file number', 'response.fileno() failed inside a capture'),
 ('C20', "capture: don't write to the closed file when a connection is used after the capture", 'a connection made in a capture and used after it raised ValueError (write to closed file) in client code'),
 ('C20', 'capture: resume the outer capture when a nested one ends', 'after a nested capture ended the outer one recorded nothing more'),
 ('C19 C20', "capture: exchanges that overlap or are abandoned don't mix with others", 'overlapping or abandoned exchanges on different connections were mixed in one record'),
 ('C28', 'convert datetimes that have a time zone to UTC dates', 'aware datetimes not in UTC were written with their local time and a Z'),
 ('C24', "records written after BufferWARCWriter.get_stream() don't overwrite earlier ones", 'writing after get_stream() was read overwrote earlier records'),
 ('C25 C03', "don't add a payload digest of the whole block when HTTP headers were not parsed", 'copying with no_record_parse added a payload digest computed over headers and payload'),
 ('C25 C26', 'keep a block that starts with an empty line when its HTTP headers are parsed', 'a block starting with an empty line lost that line when copied'),
 ('C13', 'encode non-ASCII text around an encoded header parameter only once', 'parameter values were percent-encoded twice when other non-ASCII text was in the same header'),
 ('C26 C25', 'block digest of a revisit record must not include the body that is not written', 'a revisit record with HTTP headers and a body was written without the body but with the block digest of both'),
 ('C26', 'recompute a block digest when the http headers are then written differently', 'a record whose block digest was computed before it was written by a writer with a header filter, or written twice with different HTTP headers, was written with a block digest of the other headers'),
 ('C10 C08', 'chunk terminators delivered in two parts', 'a ChunkedDataReader over a stream that gives short reads took a CR LF delivered in two parts for the end of the data (or for content that is not chunked) and lost the rest'),
 ('C22 C04', 'a NUL in the name of a digest algorithm makes it unknown, not an error',
  'WARC-Payload-Digest or WARC-Block-Digest naming an algorithm with a NUL byte in it raised TypeError out of the iterator'),
 ('C09', 'chunk framing is checked also with python -O', 'with python -O (no assert statements) content that is declared chunked and is not lost its first line or all of it'),
 ('C12', 'status codes are checked also with python -O', 'with python -O validate_statusline accepted a status code of 0 or a negative one'),
 ('C26', 'records of unknown length are written right also with python -O', 'with python -O a record created without a length raised TypeError when it was written'),
 ('C23', 'revisits without a digest are refused also with python -O', 'with python -O create_revisit_record accepted an empty digest and wrote a revisit without one'),
]
used = set()
with open(os.path.join(here, 'known_findings.jsonl'), 'w') as f:
    for props, subj, what in F:
        h = log['fix: ' + subj]
        used.add('fix: ' + subj)
        for p in props.split():
            f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': h, 'what': what,
                                'line': 'fixed: property=%s %s %s' % (p, h, what)}) + '\n')
print([s for s in log if s.startswith('fix:') and s not in used])
