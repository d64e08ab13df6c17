"""The properties, in prose. gen.py turns them into properties.jsonl and MANIFEST.json."""
P, NA = [], []
NOTE = ("Bounded: every execution in the scenario bounds printed in the evidence is run on the real library "
        "(ASan+UBSan build of the current tree); nothing is sampled and no model stands in for the code.")

def prop(id, title, statement, over, text, why, files, mech, technique, note=NOTE, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = ['public API of lib/src/includes']
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a, technique=technique, note=note))

S = 'lib/src/signed_video_h26x_sign.c'
A = 'lib/src/signed_video_h26x_auth.c'
C = 'lib/src/signed_video_h26x_common.c'
L = 'lib/src/signed_video_h26x_nalu_list.c'
T = 'lib/src/signed_video_tlv.c'
R = 'lib/src/signed_video_authenticity.c'
O = 'lib/src/signed_video_openssl.c'
ENUM = 'stateless explicit-state model checking of the real signer and validator: '

prop('P01', 'Untampered signed video is reported authentic, completely',
     'A video signed by this library and delivered untouched is validated without API errors: every validation '
     'result, once a signature has been received, is OK (or merely "signature present" before the first completed '
     'validation), with equal expected and received picture counts. Every picture whose signature has been '
     'delivered ends up marked authentic, and the overall result is OK. This holds whatever the frame sequence (from an I-frame on), '
     'codec, signing level, key type, hash algorithm, SEI format options, recurrence, SEI fetch method and signing latency.',
     ['inputs', 'configurations', 'schedules'],
     'all frame sequences up to the bound x all signer configurations x all signing latencies per GOP',
     'Tests sample a few dozen fixed sequences with default settings and a handful of delays; combinations such as '
     'RSA with sha512, or a manually set key with a non-default hash, were never run (and were broken).',
     [S, A, C, L, T, O, R],
     [('GOP hash and signature creation', S), ('GOP hash recomputation and comparison', A), ('hash and signature primitives', O)],
     ENUM + 'exhaustive enumeration of frame sequences, configurations and latencies')
prop('P02', 'No picture tampering goes unnoticed',
     'A picture that was modified, or was never signed, is never marked authentic. A result of OK covers a gap-free '
     'run of the signed pictures in their original order, and consecutive OK results join without gap or overlap, so '
     'removed, duplicated, inserted, reordered or altered pictures turn some result into something other than OK. '
     'Such a change is reported as not OK, or OK with missing info, at the latest when three more signatures have been received.',
     ['inputs', 'histories'],
     'all single edits (modify, drop, duplicate, insert, swap, copy, move) at all positions, all byte and header changes, and all pairs of edits',
     'Tests apply one chosen edit at one chosen position of one sequence; the property is over every edit at every position with every SEI latency.',
     [A, L, C],
     [('per-NALU hash comparison', A), ('GOP hash comparison', A), ('missing item detection', L)],
     ENUM + 'exhaustive enumeration of edits by an adversary on the channel')
prop('P03', 'GOPs cannot be dropped, repeated, reordered or spliced unnoticed',
     'If whole groups of pictures are removed, repeated, reordered, exchanged with each other, or joined with another '
     'recording of the same camera, no OK result bridges the seam and the change is reported. '
     'Results of OK always cover consecutive pictures of a single recording. '
     'This also holds if some signatures carry a list of hashes and others do not.',
     ['inputs', 'histories'],
     'all contiguous ranges dropped/repeated/replaced, all prefix+suffix splices of two recordings, all arrangements with repetition of the GOPs of a recording',
     'Tests have a few fixed cases (lost GOP, one reordering); the linkage property quantifies over all arrangements.',
     [A, C, L],
     [('linked hash between GOPs', C), ('GOP counter and lost SEI detection', A)],
     ENUM + 'exhaustive enumeration of GOP arrangements and splices')
prop('P04', 'Altered or forged signature SEIs never authenticate anything',
     'Whatever is done to the signature SEIs by someone without the private key (altering any byte; removing, '
     'repeating, replacing or adding any field; moving, dropping or duplicating SEIs), no modified picture is marked '
     'authentic and no OK result covers a modified, missing or reordered picture. '
     'As long as results are OK the reported product information and timestamps are those of the camera.',
     ['inputs', 'histories'],
     'all bytes of the SEIs, all single field edits, all SEI edits, all subsets of attacker fields',
     'Tests flip one byte or two of a SEI; a flaw in a single field (a malformed signature was accepted) needs all bytes and all fields to be tried.',
     [A, T, O, 'lib/src/signed_video_h26x_common.c'],
     [('signature verification', O), ('document hash over the SEI', A), ('decoding of fields', T)],
     ENUM + 'exhaustive enumeration of SEI byte and field forgeries')

prop('P05', 'Damage stays local: validation recovers after tampering',
     'Tampering with pictures of one group of pictures (after the first), or losing, repeating or corrupting one '
     'signature SEI of a promptly signed video, spoils neither earlier results nor later ones: pictures of earlier '
     'groups are authentic, pictures more than two groups later are authentic, results are OK again after three more '
     'signatures, and results keep coming.',
     ['inputs', 'histories'],
     'all edits of one picture or SEI (every byte and field) x positions x latencies x configurations',
     'Recovery depends on internal state left behind by the failed validation; tests check it for two or three fixed edits.',
     [A, L, C],
     [('state kept between validations', A), ('pending GOP selection', A), ('lost SEI detection', A)],
     ENUM + 'exhaustive enumeration of single faults, monitored for containment and liveness')
prop('P06', 'Invalid, missing and extra pictures are pinpointed',
     'If exactly one P picture of a signed video is modified, removed, repeated or added, exactly one report is bad '
     'and it marks exactly the right pictures: with authenticity level FRAME only the altered/added one is marked '
     'invalid, a removed one is shown as one missing item (and the result is OK with missing info); with level GOP '
     'exactly the pictures of that group are marked invalid. All other pictures are authentic.',
     ['inputs'],
     'all positions x kinds of single edits x latencies x configurations',
     'Tests compare counts for a few fixed edits; where the marks are put depends on position, latency and level.',
     [A, L],
     [('hash list matching', A), ('missing item insertion', L), ('validation string', L)],
     ENUM + 'exhaustive enumeration of single edits against an exact reference verdict per picture')
prop('P07', 'Unsigned video is reported as not signed',
     'A video without signatures, whatever its NAL units and whether or not a public key was set, is only ever '
     'reported as not signed: no NAL unit is marked authentic, invalid, missing or erroneous, nothing counts as '
     'validated and everything received is pending.',
     ['inputs'],
     'all NALU sequences up to the bound over all NALU types',
     'Tests feed two or three fixed unsigned streams; the property is over all NALU sequences.',
     [A, L, R],
     [('report without signature', A), ('validation string', L)],
     ENUM + 'exhaustive enumeration of NALU sequences')
prop('P08', 'Any part of a recording validates on its own',
     'Cutting an untampered signed recording at any I-frame and ending it anywhere gives a video that is never '
     'reported as not OK or incomplete. With three signatures in it the overall result is OK, and every group of '
     'pictures that is included together with its signature is marked authentic.',
     ['inputs', 'histories'],
     'all start and end points x latencies x configurations',
     'Tests cut at one or two fixed points; start-up heuristics for the first SEI must work for all offsets and latencies.',
     [A, C, L],
     [('first validation', A), ('linked hash start-up', C)],
     ENUM + 'exhaustive enumeration of cut points')
prop('P09', 'Every report accounts for exactly the NAL units received',
     'In every report the validation and type strings list, in order, every NAL unit received since the first one '
     'that was still pending (plus one blank/M pair per detected missing one), each with its true type and an '
     'admissible status; a status never changes once decided; received, validated and pending counts '
     '(latest and accumulated) agree with these strings, whether or not the video was tampered with.',
     ['inputs', 'histories'],
     'all NALU type mixes of the bound x all single edits (thorough: pairs) x latencies x configurations',
     'Users count backwards from the latest NALU to find the affected pictures; tests compare totals of fixed streams, never alignment under tampering.',
     [L, R, A],
     [('list of NALUs', L), ('report update and clean-up', R)],
     ENUM + 'exhaustive enumeration against an executable reference model of the report, compared at every report')
prop('P10', 'The overall verdict is the worst result, however it is observed',
     'The accumulated authenticity is the worst of all results given so far, a change of public key is never '
     'forgotten, and accumulated timestamps are the first and last ones given. Not requesting results, or fetching '
     'reports at any time, changes neither later results nor the report at the end, and a fetched report equals the latest one given.',
     ['inputs', 'histories', 'schedules'],
     'all edits as for P09 x observation patterns',
     'Sticky state must survive every later result; tests look at the end of a few streams.',
     [R, A],
     [('accumulated validation', R), ('report snapshot', R)],
     ENUM + 'exhaustive enumeration against a reference fold over the reported results, plus observer-equivalence')
prop('P11', 'Only the right public key authenticates, and key changes are reported',
     'With a wrong or no public key nothing is ever marked authentic. If the key in the stream differs from the one '
     'the user set, or changes in mid-stream (also to another key type), the change is indicated, the overall result '
     'is and stays not OK, and validation continues without errors. A key can only be set once and before validation starts.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of key types x key in stream or not x manual key right/wrong/none x all joints of two recordings',
     'Tests use one key pair; a change from EC to RSA made every later validation fail with an error (overall OK) until fixed.',
     [T, A, O],
     [('public key decoding and change detection', T), ('key set by user', A), ('signature verification', O)],
     ENUM + 'exhaustive enumeration of key configurations and key changes')
prop('P12', 'Product info, timestamps and versions arrive as set by the camera',
     'For authentic video the report shows exactly the product information set on the signing side (strings of 255 '
     'or more characters cut to 254, unset ones empty; changes take effect with the next signature), the software '
     'version, and the timestamp given with the I-frame at which the signature was created - none if none was given - for any 64-bit value.',
     ['inputs'],
     'all length classes of all pairs of strings x all assignments of extreme timestamps to GOPs',
     'Boundary lengths and extreme values interact with the encoding of lengths, signs and emulation prevention.',
     [T, R, S],
     [('product info encoding', T), ('timestamp encoding', T), ('transfer to report', R)],
     ENUM + 'exhaustive enumeration of boundary values per field')
prop('P13', 'Start codes and trailing zeros of NAL units do not matter',
     'A NAL unit is the same with a 3 or 4 byte start code or none, and with or without trailing zero bytes: signing gives the same SEIs '
     '(apart from the signature bits) and validation the same reports for every such re-framing of each NAL unit.',
     ['inputs'],
     'all assignments of framings to the NALUs of a stream, signing and validating',
     'Re-framing happens in containers and players; tests always use the same start code.',
     [C, S, A],
     [('NALU parsing', C)],
     ENUM + 'exhaustive enumeration of framings, compared with the reference framing')

prop('P14', 'Each signature SEI is exactly what the format demands',
     'Every SEI handed out is a well-formed SEI NAL unit (emulation prevention as configured, right payload size, the '
     'documented fields) and its content is exactly right: hash list or GOP hash of precisely the pictures of the '
     'ended GOP, linked to the neighbouring GOPs, the counter, versions, picture count, timestamp, hash algorithm, key and product info, '
     'and a signature by the configured key over the documented bytes. One SEI per ended GOP, none besides.',
     ['inputs', 'configurations'],
     'all sequences of NALU types up to the bound x all signer configurations',
     'Tests check SEIs only through this library\'s own validator, so that an error on both sides goes unnoticed and old or '
     'other validators stop accepting the video; here an independent implementation of the format decides.',
     [S, T, O, C],
     [('SEI generation', S), ('encoding of fields', T), ('hash and signature', O)],
     ENUM + 'exhaustive enumeration; every SEI is compared with an independent reference signer and verified with OpenSSL')
prop('P15', 'No SEI is lost, repeated, reordered or handed out unsigned',
     'Whatever the order of adding NAL units and asking for SEIs, and however long signatures take, every generated SEI '
     'can be fetched exactly once, complete, in order of generation (latest first with the deprecated API), as soon as it is signed and not before; '
     'the number of pending SEIs is right. When a NAL unit is peeked at, SEIs are handed out only if it starts a picture, so that they precede one; peeking only defers. A NAL unit is refused only if SEIs wait '
     'or there is no room, and can then be added again without loss.',
     ['histories', 'schedules'],
     'all histories of API calls up to the bound x all signing latencies; up to and beyond a full buffer',
     'Tests fetch after every NALU; the buffer of SEIs, its overflow and refusal are history-dependent (60 waiting SEIs broke the GOP until fixed).',
     [S],
     [('SEI buffer', S), ('peek and refusal', S)],
     ENUM + 'exhaustive enumeration of operation histories against a reference queue')
prop('P16', 'Adding a NAL unit in parts gives the same signatures',
     'A NAL unit added for signing in parts, cut anywhere after its first slice byte, gives the same SEIs as if added '
     'in one piece, also if it has trailing zero bytes, and also if its first part was refused at first because '
     'SEIs were waiting. No part is read out of bounds.',
     ['inputs', 'histories'],
     'all cuts of each NALU into up to three parts x trailing zeros x refusals',
     'Tests split every NALU in the middle only.',
     [S, C],
     [('hashing of parts', S), ('trailing zeros', C)],
     ENUM + 'exhaustive enumeration of splits, SEIs compared with the reference signer')
prop('P17', 'Size limits never harm the signature',
     'With any maximum SEI payload size and any number of pictures in a GOP that can be counted (65535), also beyond what a hash list can hold, '
     'every SEI is correct, falls back to the GOP hash exactly if the hash list does not fit, and validation '
     'gives OK for untampered video and detects tampering.',
     ['inputs', 'configurations'],
     'all payload limits in the bound x GOP lengths; GOP lengths around the capacity of the hash list',
     'Tests use one limit; the boundary cases (exactly full, one more) matter.',
     [S, A, T],
     [('fall-back to GOP hash', S), ('hash list capacity', C)],
     ENUM + 'exhaustive enumeration of limits and lengths')
prop('P18', 'A failed signature costs that SEI only, and is reported',
     'If the signing plugin refuses a request, reports a failure later, or gives no signature, the error is reported '
     'once, all other SEIs get their own signature, in order, and a refused NAL unit can be added again. '
     'The video made is never reported as anything but short of signatures, and validates OK again afterwards.',
     ['fault_sequences', 'schedules'],
     'all outcomes of each of the first signing requests x latencies',
     'Tests have no failing signing plugin at all; one failure shifted all later signatures to the wrong SEIs until fixed.',
     [S, O],
     [('completion of SEIs', S)],
     ENUM + 'exhaustive fault injection at every signing request')
prop('P19', 'Recurrent information comes at the configured interval',
     'The public key, product info and crypto info are included in the first SEI and then exactly as often as the '
     'recurrence interval demands for every interval and GOP structure, (with a golden SEI: in that one only), so that a viewer can join '
     'the stream within the interval.',
     ['inputs', 'configurations'],
     'all NALU sequences up to the bound x intervals; latency patterns',
     'Tests use a few intervals with fixed GOP lengths.',
     [S],
     [('recurrence', S)],
     ENUM + 'exhaustive enumeration against a reference model of the interval')
prop('P20', 'A session that was reset behaves like a new one',
     'After signed_video_reset() at any point a validating session gives, for whatever follows, the same results as a '
     'fresh session; a signing session signs what follows as a new recording that validates OK (the '
     'GOP counter continues).',
     ['histories'],
     'all points of reset x untouched/damaged/unsigned video before x start and damage after',
     'State left behind depends on what happened before the reset; tests reset at two points.',
     [A, S, C],
     [('reset', C)],
     ENUM + 'exhaustive enumeration of reset points, compared with a fresh session')
prop('P21', 'No input harms a session',
     'Whatever bytes are given for validation (or signing) - malformed, truncated or maliciously signed SEIs, tiny NALUs, '
     'any values of any field - a session neither reads nor writes out of bounds, has undefined behaviour, hangs or leaks memory; every '
     'call returns a status and later calls work. Video by an attacker with a key of its own is never a reason for harm.',
     ['inputs'],
     'every byte of SEIs x values, every truncation, every field value re-signed by an attacker, all short NALUs, emulation prevention patterns, odd keys',
     'Tests feed well-formed SEIs; a length field with one specific value is needed to read out of bounds (eight of the repaired defects).',
     [A, C, L, T, O, 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'],
     [('SEI parsing', C), ('TLV decoders', T), ('keys from SEIs', O)],
     ENUM + 'exhaustive enumeration of malformed inputs with memory, leak and undefined-behaviour monitors')
LG = 'lib/src/legacy/'
V = 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'
prop('P22', 'Failures are survived, told and never make video authentic',
     'If memory runs out, or a call to OpenSSL or of the file system fails, anywhere, once or from then on: nothing crashes, leaks or has '
     'undefined behaviour and sessions can still be used and freed. If no call told of an error, the signed video is valid, and a '
     'generated private key (buffer, file) is complete. Modified video is never reported authentic because of a failure, and a validation '
     'that failed stays part of the overall result.',
     ['fault_sequences', 'programs'],
     'every allocation and every OpenSSL/file call of 20 signing, 18 validation and 20 key generation programs, failing once or from then on, with and without repeating the failed call',
     'Tests never make a call fail; each failure point is its own path (fifteen of the repaired defects).',
     [S, A, C, L, T, O, LG + 'legacy_h26x_auth.c', V],
     [('error handling and clean up', C), ('validation after a failure', A), ('OpenSSL wrappers', O), ('key generation', O)],
     ENUM + 'exhaustive enumeration of failure points with memory, leak and undefined-behaviour monitors, compared with the fault-free run')
prop('P23', 'Sessions do not affect each other',
     'Any number of signing and validation sessions can be used side by side, with different codecs, keys, levels and '
     'hash algorithms: each gives exactly the results it gives alone.',
     ['schedules', 'histories'],
     'all interleavings of the steps of two sessions, each signing or validating, 4 variants each',
     'Tests run one session at a time apart from one test; shared static state shows only in interleavings.',
     [S, A, O, T],
     [('session state', S), ('OpenSSL handles', O)],
     ENUM + 'exhaustive enumeration of interleavings, compared with each session run alone')
prop('P24', 'A golden SEI carries all that is needed once, and only an intact one is believed',
     'With a golden SEI first among the signatures - generated by the session or stored by an earlier one, at any place before the '
     'first signature - untouched video is authentic in every configuration, the golden SEI itself is reported, the other SEIs do not repeat '
     'what it holds and keep the authenticity level set. Tampering is detected as without it, wherever copies of the golden SEI '
     'are put. Nothing is ever authentic if the golden SEI is removed, altered in any byte or TLV, or made with another key.',
     ['inputs', 'configurations'],
     'all NALU sequences up to the bound x all configurations x all places of the golden SEI x all signing latencies; every edit of pictures and SEIs; every byte and TLV of the golden SEI',
     'The test signs one stream with the golden SEI at the very beginning and alters nothing.',
     [A, S, T, C],
     [('golden SEI on the signing side', S), ('golden SEI on the validation side', A), ('recognition', C)],
     ENUM + 'exhaustive enumeration of placements, configurations and alterations on the real signer and validator')
prop('P25', 'A call that is refused has no effect',
     'Calls with missing, empty or invalid arguments, unusable keys, unknown algorithms, or settings that come too late are refused with '
     'an error (the documented one) at any time, and signing as well as validation goes on exactly as if the call had not '
     'been made; a correct call made afterwards succeeds.',
     ['programs', 'inputs'],
     'all refused calls at all points of signing and validation programs (pairs in the thorough tier), all short sequences of accepted and refused settings',
     'Tests call with bad arguments before or after a session, never look at what follows; an unusable public key blocked the session for a good one.',
     [S, A, O, C],
     [('argument checks of the signing API', S), ('argument checks of the validation API', A), ('keys and hash algorithms', O)],
     ENUM + 'exhaustive enumeration of insertion points, compared with the program without the refused call')
prop('P26', 'Versions are ordered by their numbers',
     'signed_video_compare_versions() orders all versions vX.Y.Z by major, minor and patch number, whatever their number of digits, is '
     'antisymmetric, and refuses whatever does not have the form of a version; the version of the library has that form.',
     ['inputs'],
     'all pairs of versions with boundary values per number, all short strings over the characters of a version',
     'Tests compare three fixed versions.',
     [C],
     [('version comparison', C)],
     ENUM + 'exhaustive enumeration against a reference order')
prop('P27', 'Video signed by older versions is validated just as safely',
     'Video signed by older versions of the framework (linked hashes, recursive GOP hash) is authentic if untouched, in every '
     'configuration older versions offered; modified, lost, inserted or reordered pictures are not, and show in the result; '
     'an altered or lost P picture, or SEI of promptly signed video, spoils neither earlier results nor those from the third signature on; '
     'it is never authentic with another key, and not as a whole if the key changes; reports tell product, version, timestamps and totals. Malformed older SEIs do '
     'no harm, and after a reset a session validates video of either format as if it were new.',
     ['inputs', 'histories', 'configurations'],
     'all NALU sequences up to the bound x all configurations of the older signer x all delays of signatures, every single edit and pairs of edits at every place, every byte and field of older SEIs replaced (also re-signed by the attacker), all points of reset or change of format and key',
     'Tests play a few recorded dumps of one configuration; nothing is modified at more than a few places.',
     [LG + 'legacy_h26x_auth.c', LG + 'legacy_h26x_common.c', LG + 'legacy_h26x_nalu_list.c', LG + 'legacy_tlv.c', A, C],
     [('detection of the older format', A), ('legacy validation', LG + 'legacy_h26x_auth.c'), ('legacy NALU list', LG + 'legacy_h26x_nalu_list.c'), ('legacy TLV decoders', LG + 'legacy_tlv.c')],
     ENUM + 'exhaustive enumeration of video from a reference model of the older signer, played to the real validator',
     note=NOTE + ' The older signer is a model; the validator accepting all of its configurations binds it to the code.')
prop('P28', 'The origin of the public key is reported OK only if attested',
     'For video claimed to come from Axis Communications, the public key validation is OK only if the certificate chain received leads to the '
     'trusted root, the attestation signature covers the key in use, that key is one the device can hold, it has not been '
     'replaced, and the serial number of the attestation certificate is the one of the product info. Otherwise it is NOT_OK, '
     'or NOT_FEASIBLE if there is no attestation, no key in the stream or another manufacturer. The result for the video '
     'itself is the same whatever the attestation is. Setting an attestation either succeeds completely or changes nothing.',
     ['inputs', 'histories', 'configurations'],
     'all certificate chains (missing, extra, swapped, foreign, forged, with long or missing serial number) x attestations x serial numbers, every byte of an attestation altered, all histories of SEIs with changing content, all API call sequences up to the bound',
     'Tests use one recorded attestation from one camera and never check a forged one, or a chain to another root.',
     [V, A, T],
     [('chain verification and attestation check', V), ('vendor TLV', V), ('report of the origin', A)],
     ENUM + 'exhaustive enumeration of chains, attestations and histories against an independent oracle',
     note=NOTE + ' The compiled-in root certificate is replaced by one whose private key the harness holds; signatures are real.')
PL = 'lib/plugins/threaded-signing/plugin.c'
SCHED = ('stateless model checking of the real threaded signing plugin under a controlled scheduler (all thread interleavings up '
         'to a preemption bound): ')
NOTE_T = ('Bounded: thread switches are enumerated at synchronisation operations only, which is sound because freedom of data '
          'races is itself checked (vector clocks) in every execution. Preemption bound and history depth are in the evidence.')
prop('P29', 'The threaded plugin signs every hash once and in order, under every interleaving',
     'With one thread per session, whatever the interleaving of the session and its signing thread: each hash given for signing '
     'comes back as exactly one signature of that hash, in order; a failed signing comes back as an error in its place; '
     'there is no deadlock, data race, access to freed memory or leak, also if the buffers run full, the session is '
     'closed at any time, memory cannot be allocated or the thread cannot be started.',
     ['schedules', 'fault_sequences'],
     'all interleavings up to the preemption bound of all call sequences up to the bound, with spurious wakeups, each failing allocation and each failing signature',
     'Tests run the threaded plugin on whatever schedule the OS happens to give and never let an allocation fail; an ordering, '
     'lost wakeup or shutdown error needs one specific interleaving.',
     [PL],
     [('session buffers and signing worker', PL), ('session setup and teardown', PL)],
     SCHED + 'exhaustive enumeration of schedules, call histories and faults', note=NOTE_T)
prop('P30', 'Sessions sharing the central signing thread are isolated from each other',
     'With a central signing thread, whatever the interleaving of the sessions and the thread: each session gets exactly the '
     'signatures of its own hashes, in order, and errors of its own only; closing, failing or idle sessions '
     'neither block nor disturb the others; the thread can be started and stopped at any time. There is no deadlock, data race, '
     'access to freed memory or leak.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings up to the preemption bound of 2-3 sessions and the signing thread, all call sequences up to the bound, all single faults',
     'Tests use one session with the central thread; isolation needs several sessions and particular interleavings (three of the repaired defects are of that kind).',
     [PL],
     [('central worker with id-tagged buffers', PL), ('sv_signing_plugin_init/exit', PL)],
     SCHED + 'exhaustive enumeration of schedules of several sessions, lifecycle histories and faults', note=NOTE_T)
prop('P31', 'Pictures are recognised by their NAL unit headers and protected; others are not',
     'Whatever the header of a NAL unit: slices of H.264 types 1 and 5, and of H.265 trailing and intra random access pictures '
     '(types 0, 1, 16-21), in any layer and temporal layer the standards allow, are signed, counted, and cannot be altered, removed, '
     'repeated or added unnoticed; the first slice of an intra picture starts a GOP, and each complete GOP gets one SEI; NAL units '
     'that are no slices can be altered, removed, repeated and added without any effect on the verdict; video with other '
     'slices is authentic if untouched.',
     ['inputs'],
     'every H.264 and H.265 NAL unit header (type, reference, forbidden bit, layer, temporal id), first slice or not, x streams',
     'Tests use one header per type; signer and validator have to agree on all of them.',
     [C, S, A],
     [('NAL unit header parsing', C)],
     ENUM + 'exhaustive enumeration of headers against the tables of the standards')
PU = 'lib/plugins/unthreaded-signing/plugin.c'
prop('P32', 'The unthreaded plugin signs every hash once and in order',
     'Whatever the sequence of calls of several sessions of the unthreaded signing plugin: each hash accepted for signing comes back as '
     'exactly one signature, by that session\'s key, in order; hashes are accepted as long as fewer than 60 signatures wait; a hash that '
     'cannot be signed (no room, no memory, OpenSSL error, unsuitable size) is refused with an error and does not disturb the others; '
     'invalid arguments are refused; never is more written than there is room for, and nothing if there is too little; '
     'nothing leaks.',
     ['histories', 'inputs', 'fault_sequences'],
     'all call sequences of two sessions up to the bound, all fill levels of the buffer, all sizes of room, each failing allocation and OpenSSL call',
     'Tests fetch every signature at once, in one session, with enough room; order, wrap-around and errors need several signatures waiting.',
     [PU, O],
     [('buffer of signatures', PU), ('openssl_sign_hash', O)],
     'stateless explicit-state model checking of the real unthreaded signing plugin: exhaustive enumeration of call histories, fill levels and faults against a FIFO model')
prop('P33', 'Generated private keys are fresh, complete and usable',
     'Each successful call that generates a private key gives a new key of the kind asked for (ECDSA on P-256, or RSA of at least 2048 bits); '
     'the PEM file in the directory given holds exactly that key and nothing else, whatever was there before; a buffer asked for together with its '
     'size holds the same bytes; video signed with the key validates. If no key can be given (no directory and no '
     'buffer, no such algorithm, file cannot be written) an error is returned, and then and on success no other file is touched and nothing leaks.',
     ['inputs', 'histories'],
     'all functions x kinds of directory x outputs wanted x files there before, and all sequences of calls up to the bound',
     'Tests generate each kind of key once, in an empty place.',
     [O],
     [('create_rsa_private_key and create_ecdsa_private_key', O), ('write_private_key_to_file', O), ('get_path_to_key', O)],
     'stateless explicit-state model checking of the real library: exhaustive enumeration of call histories and file system states against a reference judgement of keys and files')
prop('P34', 'Sessions can go on forever: memory in use does not grow',
     'A signing session whose SEIs are fetched, and a validation session that receives signatures, can go on for any time: however often a sequence of '
     'GOPs is repeated, with signatures coming at once or late, failing, pictures or signatures being modified, lost or repeated, product '
     'information changed, golden SEIs or resets in between, and whether or not reports are asked for, no more memory (blocks and bytes) is in use later on than '
     'after the first repetitions: what has been delivered or validated is released. (Video without any signature so far is kept until one comes, and '
     'I-frames added by someone else are kept for their signature.)',
     ['inputs', 'histories', 'fault_sequences'],
     'all cycles of three GOPs up to the bound x what happens in each x latency, repeated until memory in use has to have become periodic',
     'Tests end after a few GOPs and free everything then; memory that is kept until the end of a session is no leak to them.',
     [S, A, L, R, C],
     [('h26x_nalu_list_clean_up', L), ('buffer of SEIs', S), ('reports', R), ('memory of the session', C)],
     'stateless explicit-state model checking of the real library: exhaustive enumeration of cycles of behaviour, each repeated 24 times with every block of memory accounted for')
