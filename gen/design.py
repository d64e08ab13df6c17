"""Writes DESIGN.md from the texts here, gen/design_approach.md, gen/design_end.md and what the evidence files tell of each scenario (after
running all checks at tier quick)."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
sys.path.insert(0, 'gen')
from props import P
H = dict(l.split() for l in open('mc/harness.map'))
# property: (oracle, limits and domain)
D = {
'P01': ('no API error; every report is OK once a signature has been received (SIGNATURE_PRESENT/NOT_SIGNED before), expected = received counts; at the end every picture whose signature was delivered is marked `.` and the overall result is OK.',
        'streams start with an I-frame (P-frames before the first I-frame can never be verified; the library then reports NOT_OK, which is fail-safe).'),
'P02': ('`oracle_sound` (mc/oracle.h): no NALU that is modified or was never signed gets `.`; the pictures covered by OK reports are consecutive signed ones, and OK reports join without gap or overlap. Detection: with at least one signature before and three after the change, some report is NOT_OK or OK_WITH_MISSING_INFO.',
        'changes behind the last signatures (tail) and before the first one are undetectable by nature; moving a SEI by one place is not tampering.'),
'P03': ('as P02, on the level of whole GOPs of one or two recordings by the same camera and key.', 'joining mid-recording is legitimate, thus only seams after at least one signature count.'),
'P04': ('as P02, and as long as results are OK product info and timestamps are those of the camera.', 'the padding of an ECDSA signature field is not authenticated (harmless). `takeover`: the attacker has a key of its own, the viewer has set the right one.'),
'P05': ('earlier reports unchanged; pictures more than two GOPs later are `.`; OK again after three signatures; no report is missing.',
        'not the first GOP, no inserted/lost I-frames, no signatures a GOP or more late: there the library may stay NOT_OK (fail-safe, a TODO of the authors).'),
'P06': ('the one bad report and the status of each NALU in it are predicted exactly.', 'one P picture of a GOP, signatures prompt or late.'),
'P07': ('every report NOT_SIGNED with only `P`/`U` states and counts accordingly.', ''),
'P08': ('no NOT_OK, no missing; OK with three signatures; every GOP with its signature is `.`.', 'the cut is at an I-frame.'),
'P09': ('the strings are re-derived from the NALUs fed and the previous report; counts are re-derived from the strings.', 'picture counts are only exact if the expected count is known; pending count includes SEIs.'),
'P10': ('a reference accumulator run on the reports of the same video observed continuously.', ''),
'P11': ('never `.` or OK with a wrong key; `public_key_has_changed` and NOT_OK overall from the change on; no errors.', 'wrong manual key while the stream has a key: the first result tells, after that the key of the stream rules (documented behaviour).'),
'P12': ('string and timestamp equality with what was set.', ''),
'P13': ('equality with the run with plain framing (SEIs apart from signatures; reports).', ''),
'P14': ('an independent reference encoder (mc/ref.h) written from the format description computes the SEI bytes; OpenSSL verifies the signature.', 'the reserved byte and version numbers are those of the pinned commit.'),
'P15': ('a FIFO model of the SEIs: signed/unsigned, fetched, room; compared at each call.', 'NALUs may only be refused when SEIs wait or 60 are pending.'),
'P16': ('SEI equality with the NALU added in one piece.', 'trailing zeros are in the last part; the first part has the start code, header and first slice byte.'),
'P17': ('as P14 plus validation of the result.', ''),
'P18': ('model of which SEIs get a signature; errors once each; video validates.', 'the first signature does not fail and failures are not late by a GOP for the recovery check (see P05).'),
'P19': ('a counter model of the interval.', 'exact for prompt signatures; with latency only that information comes within the interval.'),
'P20': ('equality with a fresh session.', 'the same key; the next NALU is an I-frame; no unsigned SEIs pending at reset.'),
'P21': ('ASan, UBSan, leak accounting (mc/mem.c) of library and OpenSSL memory, hang watchdog; after each input a good video must still validate in a new session, and errors are returned, never crashes.', 'one (two) malformed SEIs per execution.'),
'P22': ('as P21 after each failure; compared with the fault-free run.', 'allocations inside OpenSSL do not fail (its robustness is not this code\'s); instead each OpenSSL call of the library may. Lost reports or strings after a failure are tolerated.'),
'P23': ('equality with each session alone.', 'one thread; the library has no locks of its own.'),
'P24': ('as P01 (complete), P02 (`oracle_sound`, detection), and never OK or `.` for pictures without an intact golden SEI; the other SEIs are parsed for TLVs that belong in the golden one.', 'bytes of the signature TLV that carry format version and hash type are not signed; repeated golden SEIs in mid-stream may give NOT_OK (fail-safe).'),
'P25': ('equality with the program without the refused call: SEIs up to the signature, reports field by field; and the video validates.', 'the first part of a NALU holds its header (see P16).'),
'P26': ('comparison of number triples; a hand-written recogniser for the form.', 'text after a complete version is not judged.'),
'P27': ('as P01/P02/P11/P20/P21 on streams by an independent re-implementation of the older signer (mc/old.h); its streams were validated against the real validator in all 21600 configurations and against the recorded v1.1.29 data in tests/check/legacy_test_data.c.',
        'the legacy validator is a frozen copy of the older algorithm: joining mid-stream only at whole access units, two signatures before and three after a change for detection; an OK result may have differing counts (the next one is then NOT_OK).'),
'P28': ('a reference decision over chain, attestation, key, serial number; the result for the video is compared with the one without attestation.', 'the trusted root is replaced by a root of the harness (real keys are not available); certificates valid 2020-2099; attestation header bytes are not covered by its signature.'),
'P29': ('a FIFO of hashes; deadlock detection; vector-clock data-race detection; leak accounting.', 'threads are fibers under a controlled scheduler (mc/fibers.c): all interleavings at synchronisation points with bounded preemptions; sound because races are checked in each execution. Signing is a stand-in except in `library`. More than 60 unfetched signatures stop a session (documented).'),
'P30': ('as P29 per session.', 'all sessions use one hash size at a time; the shared buffer of 60 gives back-pressure.'),
'P31': ('the tables of NAL unit types in the H.264 and H.265 standards; counts, SEIs and results per kind.', 'headers the standards do not allow (forbidden bit, H.264 type 5 that is no reference, H.265 temporal id 0 in the header) and slices of types the library does not sign only have to leave untouched video authentic.'),
'P33': ('OpenSSL parses, checks and re-encodes the keys; the directory is compared before and after; leak accounting.', 'whether a key is given when the buffer is asked for without its size is not judged; RSA key generation is memoised by the state of the (fixed) random numbers. Failing file operations are under P22 `keys`.'),
'P34': ('peak of blocks and bytes in use in the later half of the repetitions compared with that of the earlier half.', '128 bytes are allowed for signatures of varying size (12 repetitions, so growth by 11 bytes or more each is seen). Added I-frames are excluded: the code keeps each for a signature of its own, and validation lags behind by one GOP from then on.'),
'P32': ('a FIFO of hashes per session; OpenSSL verifies each signature; leak accounting.', 'which signature comes after a call with too little room is not judged. The buffer of 60 is as large as that of the library.'),
}
ap = open('gen/design_approach.md').read()
end = open('gen/design_end.md').read()
o = ['# Model checking the Signed Video Framework\n', ap.strip() + '\n', '## Properties\n',
     'For each property: the scenarios (all combinations of the choices named are executed; numbers in parentheses: tier thorough), the oracle,\n'
     'the domain. Executions are those of tier quick; every scenario is exhausted.\n']
for p in P:
    i = p['id']
    ora, lim = D.get(i, ('', ''))
    o.append('### %s %s\n' % (i, p['title']))
    o.append('Harness `mc/%s.c`. %s\n' % (H[i], p['why_tests_cant']))
    try:
        e = json.load(open('evidence/%s.json' % i))
        for s in e['coverage']['scenarios']:
            o.append('* `%s` (%d executions): %s' % (s['name'], s['executions'], s['bounds']))
    except FileNotFoundError:
        print('no evidence for', i)
    o.append('\nOracle: ' + ora)
    if lim: o.append('Domain: ' + lim)
    o.append('')
o.append(end)
open('DESIGN.md', 'w').write('\n'.join(o))
