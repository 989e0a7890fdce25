"""Writes MANIFEST.json"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

T = 'deterministic simulation with fault injection: seeded search over '
TECH = {
    'C01': T + 'delivery schedules of a simulated packet network',
    'C02': T + 'loss, lateness, duplication and restart schedules of a simulated packet network',
    'C03': T + 'simulated loss bursts over the packet order',
    'C04': T + 'simulated packet loss, compared with the prediction',
    'C05': T + 'simulated packet loss and brute-force enumeration',
    'C06': T + 'adversarial entropy behind the random module',
    'C07': T + 'simulated loss and recovery passes in the real driver',
    'C08': T + 'simulated damage, disk transfer sizes and recovery runs to the end',
    'C09': T + 'simulated loss and recovery passes with recounted metadata',
    'C10': T + 'disk faults, kills and restarts between saves and loads',
    'C11': T + 'disk faults, kills and restarts between saves and replays',
    'C12': T + 'disk faults and failures inside reporting recovery runs',
    'C13': T + 'thread interleavings of concurrent recovery sessions',
    'C14': T + 'arrival orders, process reuse and interpreter hash seeds',
    'C15': T + 'disk faults and transfer sizes while reading listings',
    'C16': T + 'reply delays, stalls, reconnects and errors of a simulated server in virtual time',
    'C17': T + 'producer and consumer histories of a bit queue',
    'C18': T + 'simulated loss and elimination histories, decoded by an independent receiver',
    'C19': T + 'simulated loss and elimination histories before pruning',
    'C20': T + 'simulated loss, elimination and query histories',
    'C29': T + 'disk faults and kills while the command-line programs run as processes on a simulated disk',
    'C30': T + 'console and disk faults, interruptions, kills and restarts around recovery runs',
    'C31': T + 'delivery schedules, losses and restarts of a simulated sender and receiver',
    'C32': T + 'simulated loss, repeated and interrupted passes, refinement against a reference model of the elimination',
}
NOTE = {
    'C01': 'Every explored delivery schedule returned the sender\'s words; the sizes, widths, packet counts and schedules are '
           'sampled, programs up to 40 words (thorough: more), packet counts down to 1.',
    'C02': 'Missing bits are recomputed from the recorded deliveries, not from the code. Sampled losses; whole-packet loss only '
           '(a damaged packet counts as lost).',
    'C03': 'All packet counts up to the bound are visited and every burst position is tried for those counts; orders of '
           'larger counts are not.',
    'C04': 'Both sides run real code; a reference prediction decides who is wrong.',
    'C05': 'Complete enumeration of the values of the lost bits is the oracle, for at most 11 lost bits in a word.',
    'C06': 'Termination is a bound on random draws under streams that never settle; distribution quality is not judged.',
    'C07': 'Damaged words are instructions. All eliminations of all passes of the real driver are observed.',
    'C08': 'Termination is a bound on executed lines and passes. Damaged words are instructions.',
    'C09': 'Counts are recomputed from fresh instructions; attributes of a single instruction are trusted (C24).',
    'C10': 'A killed process keeps what it had written; power loss without fsync is not covered.',
    'C11': 'A killed process keeps what it had written; power loss without fsync is not covered.',
    'C12': 'The plain run on a perfect disk is the reference.',
    'C13': 'Preemption at any executed line of the library, up to a few switches per run; no preemption inside one line.',
    'C14': 'Two other hash seeds per case, same interpreter version.',
    'C15': 'Listings that are only partly present are read up to the end that is there.',
    'C16': 'The transport library is replaced; its request/reply rules are modelled.',
    'C17': 'Values up to 32 bits, as the code uses it.',
    'C18': 'Damaged words are instructions and still listed. The receiver is ours: the repository has no decoder.',
    'C19': 'Problems up to 1500 combinations are solved completely.',
    'C20': 'Floating results are compared with a tolerance of 1e-6.',
    'C29': 'Damaged words are instructions (recover_program). A killed process may leave anything but writes outside its outputs.',
    'C30': 'After an interruption inside a computation only files, the caller\'s program and the next run are judged. The undisturbed run of the same code is the reference.',
    'C31': 'Damaged words are instructions. Reports, metadata and side information travel reliably; the decoder of the side '
           'information is ours.',
    'C32': 'The reference model recounts from the decoder (capstone) and shares no code with the recovery; damaged words are '
           'instructions. The distance and neighbourhood parts of a score are only checked to be multiplied in.',
}
NA = {
    'C21': 'A pure function of one instruction list: no schedule, time, I/O, fault or history can influence it, so a simulator '
           'would only be an input generator (property-based testing).',
    'C22': 'A pure graph algorithm: nothing for a scheduler or fault injector to decide.',
    'C23': 'A pure function of one instruction list: nothing for a scheduler or fault injector to decide.',
    'C24': 'A pure function of one 32-bit word; exhaustive enumeration against an architecture model decides it, not simulation.',
    'C25': 'A pure function of one instruction list: the deciding step would be input generation only. (The counts that decide '
           'eliminations under loss are C09.)',
    'C26': 'The modules need libs.darm, a native library that is not in the tree or the sandbox, so no real code can be run.',
    'C27': 'Pure transformations of a word list, and unfinished (the swap compressor clears only part of a chunk): no schedule or '
           'fault can influence them. What a user can rely on, the files store_packets leaves, is C29.',
    'C28': 'A pure function of a list of numbers: nothing for a scheduler or fault injector to decide.',
}
checks = []
for k in sorted(TECH):
    checks.append(dict(property=k, quick_cmd='python3 check.py {} --tier quick'.format(k),
                       thorough_cmd='python3 check.py {} --tier thorough'.format(k),
                       evidence_file='evidence/{}.json'.format(k), technique=TECH[k], level='exploration',
                       level_note=NOTE[k]))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); import sim.env"',
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo: every seam is an interface of Python or of a library (open/os, random, zmq, sys.settrace, '
               'PYTHONHASHSEED). A replay file is replayed with: python3 check.py <id> --replay <file>')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
