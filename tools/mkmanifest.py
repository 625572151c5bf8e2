"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = 'TLA+ specification checked with TLC; recorded executions of the real code validated against it'
GEN = 'TLA+ specification checked with TLC; behaviours TLC generates from it replayed into the real code, every outcome validated against it'
BASE = 'Bounded: the specification is checked exhaustively within small bounds; the code is bound to it by the executions listed in the evidence, each event judged by the specification. '
CHECKS = {
 'P01': (TR, 'All texts up to a small length over a covering alphabet plus generated longer ones. Trusts TLC, the recorder and, outside ASCII, the language\'s notion of letters.'),
 'P02': (GEN, 'All token sequences up to 5 (thorough 7) tokens over token classes, plus random sentences and near-sentences. Trusts TLC and the recorder of trees.'),
 'P03': (GEN, 'All formulas up to a small size over the three truth values and attributes holding them, plus random deeper ones.'),
 'P04': (GEN, 'All pairs of operands of a covering domain with all operators, plus random values; floats by their exact decimal expansion.'),
 'P05': (TR, 'Every way an attribute can be unusable in every position of a policy, plus random tables and policies.'),
 'P06': (GEN, 'All histories of 3 actions (quick: a quarter of them) and random long ones over shared trees, tables and evaluators.'),
 'P07': (TR, 'Positions and thresholds of warnings over generated policies and tables; wording is free.'),
 'P08': (GEN, 'All sequences of up to 2 (thorough 3) comparisons over covering operands, plus random policies.'),
 'P09': (TR, 'The decoder of the layout is specified; encodings of the code are read by it, and encodings not made by the code are fed to the code.'),
 'P10': (GEN, 'All histories of 3 (thorough 4) table operations and random long ones.'),
 'P11': (TR, 'Any text through all stages: which stage may fail, position and excerpt are specified; termination by a time limit per call.'),
 'P12': (GEN, 'Certificates over covering field values (absent, empty, non-ASCII, long) exported and imported in every format; the layout is specified byte by byte.'),
 'P13': (GEN, 'All histories of 3 (thorough 4) signing, altering, exporting, importing and verifying actions and random long ones; signatures are ideal in the specification, and every signature the code makes is verified independently.'),
 'P14': (TR, 'All prefixes of certificates, mutated and foreign byte strings in every format; the decoder of the layout decides what they may be read as.'),
 'P15': (TR, 'Validity windows around given times and around the real clock, which is read before and after every call.'),
 'P16': (GEN, 'Pairs of certificates that differ in one or several fields, in order and in repetition.'),
 'P18': (GEN, 'Histories of requests, account changes and restarts enumerated and simulated from the specification, near misses of passwords and names, many refusals in a row. bcrypt is trusted.'),
 'P19': (GEN, 'Histories of assignments and requests by name, identifier and wildcard, enumerated and simulated, plus random tables.'),
 'P20': (GEN, 'The whole certificate as issued is specified; settings, keys, clocks (standing and moving) and histories are varied; the signature is verified independently.'),
 'P21': (GEN, 'Every connection attribute is specified, including the calendar and both address families, over covering addresses and moments.'),
 'P22': (GEN, 'Histories of requests with sets from a pool of genuine, forged, altered and conflicting certificates, trust and key changes, clock steps, failing statements and requests within requests; every kind of bad certificate at every place. Certificates are made by an independent encoder; signatures are ideal in the specification.'),
 'P23': (GEN, 'Replies and rows of the database are specified; sets in any order with windows around each other and the maximum length, on standing and moving clocks.'),
 'P24': (GEN, 'Histories with certificates sharing a serial, in one set, across sets, restarts and overlapping requests. The same certificate in another form is left open.'),
 'P25': (GEN, 'Every refusal reason at every place, every statement of the requests failing, other requests taking effect in between.'),
 'P26': (TR, 'What both authorities publish over any settings and histories of the registry.'),
 'P27': (GEN, 'All sequences of 2 (thorough 3) calls with every kind of reply, random long ones, keys and credentials given or not. The transport is a stand-in that records what is sent.'),
 'P28': (GEN, 'All ways a setting can be present, empty or missing in two sections and the defaults of both sides, random configurations, and the built-in defaults.'),
 'P29': (GEN, 'Histories of 3 operations on shared and separate databases enumerated from the specification, longer ones simulated, every statement and commit failing, the command line tool. SQLite databases only.'),
 'P30': (GEN, 'Two attribute and two policy authorities with an adversary: histories of 2 and 3 actions (quick: samples) and longer simulated ones, random histories with up to three authorities of each kind, every form at every instant around the ends of validity. The specification has no cryptography: what counts is what was issued.'),
 'P32': (GEN, 'Histories of 3 operations (quick: a sample) and longer simulated ones on one installation with random secrets; every log record, reply, fault, row, file and request is searched for them in plain and in the usual encodings and digests. A leak in an encoding not searched for is not seen.'),
 'P33': (GEN, 'All ways kinds of database and accounts can be set for two services and by default, with covering names and passwords; what the driver is told is compared. No MySQL server is there: the connection is recorded and fails.'),
 'P34': (GEN, 'All ways two loggers, one above the other, can be set up (quick: a sample), the logs of SQL and the web layer, and random configurations; files and console are read after every record.'),
 'P35': (GEN, 'Histories of 4 operations (quick: a sample) and longer simulated ones; the tools run as commands, keys come from a pool except in the runs that make real ones, and the cost of key file encryption is lowered in most runs.'),
 'P36': (GEN, 'All ways the two services can be enabled or not in both sections with every place to listen; the web layer is a stand-in that records what it is given.'),
 'P37': (GEN, 'Histories of 4 steps (quick: a sample) and many draws of one kind, each run in two forked worlds with the same random state, clock and data (self-composition); draws must differ in an eighth of their bits and no bit may stay the same. A generator seeded from secrets of the system but weak otherwise is not seen.'),
 'P17': (TR, 'Texts of certificates over covering field values, compared character by character.'),
}
NA = {'P31': 'The evaluation service of the policy authority is unfinished in this code base (it only logs and returns nothing), so there is no behaviour a specification could be bound to.'}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        t, note = CHECKS[i][:2]
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'technique': t,
                            'level': CHECKS[i][2] if len(CHECKS[i]) > 2 else 'model_checking', 'level_note': BASE + note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Not yet built.')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
