"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = {
 'C01': ('generated record sequences, round trip against the values given and an independent parser', 'exploration'),
 'C02': ('generated write sequences, output judged by an independent strict WARC/gzip parser', 'exploration'),
 'C03': ('generated records, digests recomputed independently from the bytes written', 'exploration'),
 'C04': ('generated records with digests built and corrupted by the harness, verdict model', 'exploration'),
 'C05': ('generated archives built by the harness, offsets known by construction', 'exploration'),
 'C06': ('metamorphic: same archive under generated deliveries, block sizes and packagings', 'exploration'),
 'C07': ('stateful: generated read histories against a byte-slice model per record', 'exploration'),
 'C08': ('generated encodings and chunkings (independent encoders), content round trip under read histories', 'exploration'),
 'C09': ('generated mis-declared content and cuts at generated bytes, prefix and grammar oracles', 'exploration'),
 'C10': ('stateful differential testing of the readers against in-memory files', 'exploration'),
 'C11': ('generated header blocks, round trip and independent reference parser', 'exploration'),
 'C12': ('stateful model-based testing against an ordered multimap', 'exploration'),
 'C13': ('generated header text, ASCII-ness and recovery by an independent decoder', 'exploration'),
 'C14': ('generated ARC archives (independent encoder), read and converted, compared with the model', 'exploration'),
 'C15': ('generated archives in many packagings, recompressed and compared record by record', 'exploration'),
 'C16': ('generated archives and field lists, index lines against an independent model', 'exploration'),
 'C17': ('generated archives, extract output against the known bytes of each record', 'exploration'),
 'C18': ('generated files with right, wrong, malformed and absent digests, report against a model', 'exploration'),
 'C19': ('generated exchange histories against a scripted server, archive against the bytes on the wire', 'exploration'),
 'C20': ('generated capture scopes, threads (harness-owned schedule) and filters, against uncaptured runs', 'exploration'),
 'C21': ('generated archives cut at generated and (for small ones) all bytes, prefix oracle', 'fault_enumeration'),
 'C22': ('mutation and grammar fuzzing with exception, termination, prefix and error-count oracles', 'exploration'),
 'C23': ('generated revisit, warcinfo and request/response records against the values given', 'exploration'),
 'C24': ('generated write histories with faults injected at generated points of output and payload', 'fault_enumeration'),
 'C25': ('generated source archives copied and copied again, compared by an independent parser', 'exploration'),
 'C26': ('metamorphic: the same record supplied in generated ways gives the same bytes', 'exploration'),
 'C27': ('differential: generated archives reached by path, URL, stdin or file object', 'exploration'),
 'C28': ('generated dates and digit strings against independent calendar arithmetic and inverses', 'exploration'),
 'C29': ('generated URI texts, types and options against the normalisation rule', 'exploration'),
 'C30': ('metamorphic: generated archives under generated combinations of options, against the model of the archive', 'exploration'),
 'C31': ('generated interleavings and threads of generated users, each against its own run alone', 'exploration'),
 'C32': ('generated multi-megabyte records and arrival patterns, measured against fixed bounds', 'exploration'),
}
NOTE = ('Property-based search: the property held on every generated case of the run (counts, classes and samples in the evidence file); '
        'it does not prove absence. Quick: Hypothesis, fixed number of cases per sub-check from VERIF_SEED. Thorough: about 20 times the cases, '
        'then coverage-guided fuzzing (atheris) of the same generators and oracles. Trusts the independent encoders and parsers in /verif/vk, '
        'CPython zlib/hashlib and the oracle described in DESIGN.md.')
EXTRA = {
 'C19': ' The network is an in-memory scripted transport under http.client plus a real loopback server (plain and TLS).',
 'C20': ' In the scope histories the harness owns the schedule (threads are stepped one at a time); other histories run threads freely, whose interleaving is not controlled.',
 'C31': ' Interleavings of whole steps are owned by the harness; the thread histories are sampled with a small switch interval, not enumerated.',
 'C32': ' Records are 7-9 MB; that larger ones behave alike is an extrapolation.',
 'C21': ' Small archives are cut at every byte or in up to 300 places; others at generated places around record boundaries.',
 'C24': ' Each fault case fails every write, flush and payload read of the call in turn (up to 24 points).',
}
m = {
 'version': 1,
 'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import six, hypothesis"',
 'checks': [{
   'property': p['id'],
   'quick_cmd': './check %s quick' % p['id'],
   'thorough_cmd': './check %s thorough' % p['id'],
   'technique': 'property-based testing: ' + T[p['id']][0],
   'level': T[p['id']][1],
   'level_note': NOTE + EXTRA.get(p['id'], ''),
 } for p in props],
 'not_applicable': [],
 'notes': 'No hooks in /repo: the checks import warcio from the working tree (pure Python, nothing to build) and use its public interface only.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
