#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
REPLAY = 'TLA+/TLC: behaviours enumerated from the model are replayed into the code, recordings of the code are judged by TLC against the specification'
TRACE = 'TLA+/TLC: recordings of the code are judged by TLC, step by step, against the specification'
BASE = (' Trusted: TLC and the JSON module, the projection of Python values in harness/core.py, and the specification itself; '
        'bounded by the enumerated model and the seeded cases recorded in the evidence file.')
C = {
 'C01': (REPLAY, 'model_checking', 'All pairs of small signatures (exhaustive in the model and replayed) and seeded pairs of up to hundreds of bits are compared with exact fraction arithmetic written in TLA+.'),
 'C02': (REPLAY, 'model_checking', 'All small integer pairs as constructor arguments and conversions, and seeded large ones, against the guards of the specification.'),
 'C03': (REPLAY, 'model_checking', 'The notation language is an automaton in TLA+; all strings up to a bounded length over the relevant alphabet and seeded longer ASCII strings are parsed by the code at all five entry points and by the automaton.'),
 'C04': (REPLAY, 'model_checking', 'Model: every pitch of several octaves is spelled and parsed back; code: the same and seeded pitches of up to thousands of bits.'),
 'C05': (REPLAY, 'model_checking', 'Transposition and comparison exactly; frequency against a rational enclosure of 2^(k/12) computed in the specification with a relative error bound for floating point.'),
 'C06': (REPLAY, 'model_checking', 'Order of triples and constructor rules; all small combinations and seeded ones including NaN, infinities and denormal velocities as exact fractions.'),
 'C07': (REPLAY, 'model_checking', 'The lazily sorted rescaled heap is modelled and refines the abstract bag of notes; histories of that model and seeded histories with iterators left open are replayed and judged.'),
 'C08': (REPLAY, 'model_checking', 'As C07, for length and default positions.'),
 'C09': (REPLAY, 'model_checking', 'All pairs of small tracks in the model, equality of bags in the specification; seeded pairs built along different histories and with single differences.'),
 'C10': ('TLA+/TLC: histories with refused additions at every place are recorded from the code and judged by TLC', 'fault_enumeration', 'Refused additions of every kind at every place of histories; the specification allows only the unchanged track or, for collections, a prefix.'),
 'C11': ('TLA+/TLC: aliasing model (with negative control) and sessions of the code judged by TLC', 'model_checking', 'Sessions over a pool of objects sharing parts; every object is looked at again after every call.'),
 'C12': (REPLAY, 'model_checking', 'Written bytes are parsed by the SMF automaton of the specification (independent of the library).'),
 'C13': (REPLAY, 'model_checking', 'Written bytes are parsed by the specification and the denoted events compared with those the specification derives from the track and settings.'),
 'C14': (TRACE, 'model_checking', 'Settings and tracks on both sides of every limit; nothing may have reached the output on refusal.'),
 'C15': (REPLAY, 'model_checking', 'Model: the byte-level writer and reader composed, all small tracks; code: round trips of seeded representable tracks at every kind of setting, judged exactly.'),
 'C16': (TRACE, 'model_checking', 'Round trips of seeded off-grid tracks judged with the exact bounds.'),
 'C17': (REPLAY, 'model_checking', 'The reader as a cursor machine refines the byte automaton and always terminates (exhaustive over short byte strings per mode); byte strings from the model and seeded mutations of valid files are read by the code and by the specification.'),
 'C18': (REPLAY, 'model_checking', 'Event sequences enumerated from the model and seeded files; the specification reads the same bytes and derives the notes they denote.'),
 'C19': (REPLAY, 'model_checking', 'As C18 with several channels, prefixes and signatures, and every requested channel.'),
 'C20': ('TLA+/TLC: writer with crash at every byte composed with the reader; code: every cut of written files and failing outputs judged by TLC', 'fault_enumeration', 'Every byte of every written file as the point where writing stops, and outputs that raise or take part of what they are given.'),
 'C21': (REPLAY, 'model_checking', 'The chord table is part of the specification; every name, kind of base and combination of given and omitted parameters from the model, and seeded calls.'),
 'C22': (REPLAY, 'model_checking', 'The generator runs into a scratch folder; generated and shipped functions are called side by side and compared by TLC.'),
 'C23': (TRACE, 'model_checking', 'Exact part: everything but velocities, bounds, zero variance, refusals. Statistical part: counts of 4000 draws at five marks within 7.5 standard deviations.'),
 'C24': (TRACE, 'model_checking', 'All entry points are called on the same track and bytes; TLC compares the results with each other and with the specification.'),
 'C25': (TRACE, 'model_checking', 'repr is evaluated and the rebuilt object compared by TLC with the original value; text forms against the specification\'s.'),
 'C26': (REPLAY, 'model_checking', 'The library as one state machine over a store of values: exhaustive short programs in the model, programs TLC walks through replayed into the code, and long seeded programs of the code judged step by step.'),
 'C27': (REPLAY, 'model_checking', 'Model (with negative control): the bytes are a function of the bag of notes; code: families of equal tracks built differently, compared by TLC.'),
 'C28': ('TLA+/TLC: interleaving model with negative controls; the code runs under a deterministic scheduler at interpreter-step grain and TLC judges every outcome against the sequential specification', 'model_checking', 'All interleavings of the lazily sorted track in the model; in the code one to three chosen switches between two to three threads and free runs of four, so interleavings with more switches are only sampled.'),
 'C29': ('TLA+/TLC: model of a stack of calls in progress with negative controls; recorded programs of the code with calls within calls are judged by TLC with the store at the beginning of each call', 'model_checking', 'All interleavings of up to four calls on two tracks in the model; in the code seeded programs up to four calls deep, some with errors raised by outputs, inputs and iterables.'),
 'C30': (REPLAY, 'model_checking', 'Model (with negative controls): tracks referring to lists of notes, additions in place, sorting and copying; code: programs walked by TLC and seeded programs in which objects, writers and readers are copied and pickled, every step predicted by the specification.'),
 'C31': ('TLA+/TLC: model of processes of different kinds in lockstep with negative controls; recordings of the same calls of the code in six processes of different kinds are compared by TLC', 'model_checking', 'The recordings of the checks of the other properties (without threads and draws) in six kinds of process; other platforms and versions of Python are not covered.'),
 'C32': ('TLA+/TLC: model of calls given up at every step with negative controls; recorded programs of the code with calls interrupted at bytecode grain are judged by TLC', 'fault_enumeration', 'All points of the modelled calls; in the code some thousand seeded points of those at which the interpreter looks for interrupts. Interrupted additions are not covered.'),
 'C33': ('TLA+/TLC: model of calls and the world around them with negative controls; the world is recorded before and after every call of the code, and TLC judges what changed', 'model_checking', 'Some twenty parts of the process and machine, looked at before and after each call; what is changed and put back within a call is not seen.'),
 'C34': ('TLA+/TLC: model of values held by users and library with negative controls; counts of memory and objects recorded over thousands of calls of the code are judged by TLC', 'model_checking', 'Some forty kinds of calls, each some thousands of times; what grows by less than three bytes per call, or only at calls of other kinds, is not seen.'),
}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': k, 'quick_cmd': './check ' + k, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': t, 'level': l, 'level_note': n + BASE} for k, (t, l, n) in C.items()],
     'not_applicable': [],
     'notes': 'No hooks: every check drives the public API. Defects found and repaired are listed in KNOWN_FINDINGS.txt; none is left open.'}
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
