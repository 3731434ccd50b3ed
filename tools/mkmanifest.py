#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the table below (properties without a check go under not_applicable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('Every configuration of the stated bounded space is executed on the library itself (Jython, code from /repo '
        'as it is) and compared with an independent reference model; nothing is sampled. Trusts the reference '
        'model, the JVM/Jython and the explorer. ')
T_IN = 'bounded exhaustive exploration of the implementation against a reference model'
T_OP = 'explicit-state exploration of all operation sequences to a depth on the implementation, against a state model'
T_CUT = 'exhaustive fault enumeration (every cut, every octet value) on the implementation against a prefix oracle'
T_SCHED = 'stateless model checking: controlled scheduler, all thread interleavings up to a preemption bound'
NOTE = {
    'C01': (T_IN, 'All code points and all 1-3 septet contexts.'),
    'C02': (T_IN, 'All lengths that fit one message, all header lengths, all septet values by position.'),
    'C03': (T_IN, 'All pairs of option deviations plus a full cross product of a reduced option set.'),
    'C04': (T_IN, 'Every length around all part limits, every escape position, all three alphabets, up to 255 parts.'),
    'C05': (T_IN, 'Every arrival order of up to 4-5 parts, all interleavings of two messages, through a modelled service centre.'),
    'C06': (T_IN, 'Every boundary of the relative validity table (quick) and every minute/second near it.'),
    'C07': (T_IN, 'All quarter-hour offsets x date boundaries x four machine zones.'),
    'C08': (T_IN, 'All one- and two-field deviations, every originator length, every header length x text length.'),
    'C09': (T_IN, 'All 256 data coding schemes x texts x headers.'),
    'C10': (T_IN, 'All sequences of information elements to depth 3 (4 thorough).'),
    'C11': (T_IN, 'All status octets, references, address lengths, damaged timestamps; two machine zones.'),
    'C12': (T_CUT, 'Every cut and every octet value at every offset of 16 PDU shapes.'),
    'C13': (T_OP, 'All sequences of 3 (4) operations over 38 operations, all chains of attribute profiles, all re-assignments.'),
    'C14': (T_OP, 'All strings of up to 4 characters over 14 character classes, every length, every single corruption, all assignment sequences of length 3 (4).'),
    'C15': (T_IN, 'Whole value ranges where finite, every boundary otherwise, with arbitrary suffix octets.'),
    'C16': (T_IN, 'All header values from the catalogue, all combinations of up to 2-3 headers, all insertion orders.'),
    'C17': (T_IN, 'All octet values and all sizes over length-encoding boundaries, all page/part structures to a bound.'),
    'C18': (T_IN, 'PDUs from an independent WAP-209 encoder: all header kinds, pairs and orders.'),
    'C19': (T_CUT, 'Every cut and every octet value at every offset of the MMS shapes.'),
    'C20': (T_IN, 'All page structures to a bound with all timing combinations.'),
    'C21': (T_OP, 'All sequences of operations on a message to a depth, against the first result.'),
    'C22': (T_IN, 'All push header lengths around the uintvar boundaries, all split points.'),
    'C23': (T_OP, 'All sequences of iterator operations to a depth against a list with two cursors.'),
    'C24': (T_OP, 'All sequences of messages to a depth against a fresh copy of the library.'),
    'C25': (T_SCHED, 'Line-level interleavings of 2 (3) threads up to a preemption bound.'),
    'C26': (T_OP, 'All reachable states of a slide times all calls, all sequences of calls to a depth, against a state model.'),
}
DONE = [p for p in sorted(NOTE) if os.path.exists(os.path.join(HERE, 'harness', 'props', p.lower() + '.py'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[
    dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p,
         technique=NOTE[p][0], level='model_checking', level_note=BASE + NOTE[p][1]) for p in DONE],
    not_applicable=[dict(property=p, reason='check not built yet') for p in sorted(NOTE) if p not in DONE],
    notes='No hooks in /repo are needed. The properties are decided on the real code by an exhaustive explorer; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(DONE), 'checks')
