#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
SIG='src/melodia/core/signature.py'; TON='src/melodia/core/tone.py'; NOT='src/melodia/core/note.py'
TRK='src/melodia/core/track.py'; MID='src/melodia/io/midi.py'; CHO='src/melodia/music/chord.py'
GEN='scripts/generate_chords.py'; PRO='src/melodia/processing/track.py'
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

prop('C01','Signatures order, add and multiply as exact fractions',
 'A signature n/d behaves as the exact non-negative fraction n/d: for every pair, whatever their denominators and magnitudes, ==, !=, <, <=, >, >= give the answer of comparing the two fractions, + and * give the exact sum and product, and abs gives the same value. '
 'Converting to another denominator and normalizing never change the value.',
 ['inputs'],'every pair of signatures, with equal and unequal denominators, from zero to hundreds of bits',
 'The tests compare six hand-picked pairs, all with the larger denominator on the left; the order relation ranges over all pairs and was in fact wrong for half of them.',
 [SIG],[('scaling to a common denominator before comparing or adding',f'{SIG}:_to_common_denominator')],
 [('nominator, denominator','the fraction',f'{SIG}:Signature')],['comparison operators','+','*','abs','to','normalized'])
prop('C02','Only well-formed signatures can be built or derived',
 'A signature can be built exactly when its nominator is non-negative and its denominator is a positive power of two; anything else is refused with ValueError. '
 'Conversion to a denominator succeeds exactly when that denominator is a power of two not smaller than the current one, yields exactly that denominator, and is refused with ValueError otherwise; normalizing yields the fraction in lowest terms. '
 'Every signature returned by any of these operations or by arithmetic is itself well-formed.',
 ['inputs'],'every pair of integers as nominator and denominator, every signature and every requested denominator',
 'Five invalid pairs and one conversion are tested; the guards must hold on all integers, including zero, negatives and large near-powers of two.',
 [SIG],[('constructor guard',f'{SIG}:__init__'),('conversion guard',f'{SIG}:to'),('reduction loop',f'{SIG}:normalized')])
prop('C03','Notation is parsed to the right pitch or refused',
 'A notation consisting of an uppercase letter A to G, any number of sharps and flats, and an optional octave (decimal, possibly negative, default 0) gives the pitch 12*octave + the letter\'s offset (C 0, D 2, E 4, F 5, G 7, A 9, B 11) + sharps - flats. '
 'Every other ASCII string is refused with ValueError. This holds for octaves of fewer than 4300 digits (the interpreter\'s limit), and wherever notation is accepted: tones, notes, chord bases and the middle C of the MIDI writer and reader.',
 ['inputs'],'every ASCII string (octaves below the interpreter\'s limit of 4300 digits)',
 'Some forty well-formed strings and one malformed one are tested; the language is infinite, and trailing garbage used to be accepted silently.',
 [TON,NOT,CHO,MID],[('notation grammar',f'{TON}:_notation_regex'),('pitch computation',f'{TON}:from_notation'),('delegation',f'{NOT}:__init__'),('delegation',f'{CHO}:_get_parameters')])
prop('C04','Every pitch is spelled canonically and its spelling parses back',
 'For every integer pitch, formatting gives a letter, at most one accidental (a sharp by default, a flat when asked to transpose down, none for the seven natural tones) and the octave, which is the pitch divided by 12 rounded down; the tone\'s octave is that same number and its text form is the default spelling. '
 'Parsing either spelling gives the original pitch back.',
 ['inputs'],'every integer pitch of fewer than 4300 digits, positive and negative, and both spelling styles',
 'About fifteen pitches are tested; the negative octaves and both accidental styles interact over all integers.',
 [TON],[('spelling',f'{TON}:to_notation'),('octave',f'{TON}:octave')])
prop('C05','Tones transpose, compare and sound by pitch alone',
 'Transposing a tone by k semitones gives the tone whose pitch is exactly k higher, for every integer k, so transpositions compose and invert; tones compare exactly as their pitches do. '
 'The frequency of a tone is base*2^((pitch-57)/12) up to floating-point rounding, hence strictly increasing in pitch and doubling every octave. A pitch that is not an integer is refused with ValueError.',
 ['inputs'],'every pitch, transposition and base frequency',
 'Comparison is tested on four pairs and transposition on five; frequency on a dozen tones.',
 [TON],[('transposition',f'{TON}:transposed'),('comparisons',f'{TON}:__lt__ and siblings'),('frequency',f'{TON}:to_frequency')])
prop('C06','Notes hold what they were given and order by tone, duration, velocity',
 'A note built from any accepted form of tone (tone, integer, notation) and duration (signature or pair) exposes exactly that tone, duration and velocity; velocities outside [0, 1] (including NaN) are refused with ValueError and unsupported tone or duration types with TypeError, while omitted duration and velocity are 1/4 and 0.75. '
 'Transposing, changing duration or changing velocity gives a note that differs in that attribute only. '
 'Notes are equal, less or greater exactly as the triples (pitch, duration as a fraction, velocity) are in lexicographic order.',
 ['inputs'],'every combination of tone, duration and velocity, and every pair of notes',
 'Comparison is tested on four pairs that differ in tone only; the duration and velocity levels of the order, and durations with unequal denominators, are not reached.',
 [NOT,SIG,TON],[('constructor',f'{NOT}:__init__'),('lexicographic comparison of triples',f'{NOT}:_as_triplet'),('copies with one change',f'{NOT}:transposed, with_duration, with_velocity')])
prop('C07','A track lists exactly the notes added, ordered by position',
 'After any sequence of additions (single notes, collections, nested collections, generators, initial content), iterating a track yields every added note exactly as many times as it was added, unchanged, at a position equal to the one requested, in ascending order of position, and the number of notes reported agrees. '
 'Iterating any number of times, at any moments, does not change this, and additions made while an iteration is in progress do not disturb that iteration.',
 ['histories','inputs'],'every history of additions, iterations (also partial and interleaved with additions) and length queries',
 'One test adds five notes with increasing positions; the lazily sorted, rescaled heap has state (sorted flag, common denominator) whose reachable combinations depend on the whole history.',
 [TRK],[('heap with common denominator',f'{TRK}:add'),('lazy sort',f'{TRK}:__iter__')],
 [('heap','entries (position, note)',f'{TRK}:_heap'),('sorted flag','whether the heap is sorted',f'{TRK}:_sorted'),('max denominator','common denominator of the positions',f'{TRK}:_max_denominator')],['iteration','len'])
prop('C08','Track length is the latest note end, and appending starts there',
 'After any sequence of additions the length of a track is the maximum of position + duration over its notes (zero when empty). '
 'Adding without a position places the note, or all notes of a collection together, exactly at the length the track had when the addition was called.',
 ['histories','inputs'],'every history of positioned and appended additions with any mix of denominators',
 'One test of three additions; the running maximum compares fractions of different denominators along a history and was wrong for common mixes.',
 [TRK,SIG],[('running maximum',f'{TRK}:add'),('default position',f'{TRK}:add')],[('max position','right-most note end so far',f'{TRK}:_max_position')],['length','iteration'])
prop('C09','Tracks are equal exactly when signature and contents are equal',
 'Two tracks compare equal if and only if their time signatures are equal as fractions and they contain the same notes at the same positions with the same multiplicities, regardless of the order and manner in which the notes were added. '
 'Equality is therefore reflexive, symmetric and transitive, and != is its negation.',
 ['histories','inputs'],'every pair of tracks built by any histories, including permutations of one another and tracks differing in one note, one position or one multiplicity',
 'Only empty tracks and a track with itself are compared; a track used to equal every extension of itself.',
 [TRK],[('pairwise comparison of sorted contents',f'{TRK}:__eq__')],observe=['==','!='])
prop('C10','A rejected addition leaves the track as it was',
 'When adding to a track is refused because the position is not a valid signature or pair, or because what is added is not a note, the notes, their order, the count, the length and the time signature of the track are what they were before the call; if a collection contains something that is not a note, only notes that precede it may have been placed. '
 'The track remains fully usable afterwards.',
 ['histories','fault_sequences'],'every history of accepted and rejected additions',
 'No test adds anything invalid to a track.',
 [TRK],[('argument checks before the first change',f'{TRK}:add')])
prop('C11','Only adding to a track ever changes an existing object',
 'No operation of the library other than adding to a track changes the observable value of any tone, signature, note or track that already exists: comparing, transposing, deriving, arithmetic, building chords, iterating, formatting, randomizing velocities and writing or reading MIDI leave their operands as they were. '
 'Adding to one track changes no other track, even when tracks share notes, signatures or source collections.',
 ['histories','programs'],'every program over the public operations on a shared pool of objects',
 'Tests check that an operand is unchanged in four places, each after one operation.',
 [SIG,TON,NOT,TRK,CHO,PRO,MID],[('operations return new objects',f'{NOT}:transposed, with_*'),('copying randomizer',f'{PRO}:randomize_velocities')])
prop('C12','Every written file is a well-formed single-track MIDI file',
 'For every track that can be written, the bytes written are one 6-byte header chunk (format 0, one track, the configured pulses per quarter) followed by exactly one track chunk whose declared length is exact, whose events have well-formed delta times (at most four bytes) and 7-bit data, and whose last event, and only the last, is end of track. '
 'Every note-on is eventually followed by a note-off of the same pitch and channel, as many of one as of the other.',
 ['inputs','configurations'],'every writable track and writer configuration',
 'Tests check formatting helpers on constants; no test parses a written file with an independent reader of the format.',
 [MID],[('chunk framing',f'{MID}:_format_chunk'),('variable-length quantities',f'{MID}:_format_var_len'),('event scheduling',f'{MID}:dump')],observe=['bytes written'])
prop('C13','Each note is written at its pitch, velocity, channel and time',
 'A written file contains, for every note of the track and nothing else, a note-on at tick floor(4*PPQ*position) and a note-off floor(4*PPQ*duration) ticks later, both on the configured channel at MIDI pitch 60 + pitch - middle C, the note-on with velocity floor(127*velocity). '
 'At time zero it states the track\'s time signature exactly (nominator, log2 of the denominator, 24 clocks per click, 8 thirty-seconds per quarter) and the tempo, floor(60000000/bpm) microseconds per quarter. '
 'Where, of two notes of the same pitch that do not overlap, one ends on the tick on which the other begins, the end comes first.',
 ['inputs','configurations'],'every writable track; every pulses per quarter 1..32767, channel 0..15, middle C and tempo',
 'The formatting helpers are tested on a few constants at default settings; scheduling of simultaneous events and the composition with configuration are not.',
 [MID],[('tick conversion',f'{MID}:_signature_to_pulses'),('stable sort by time, deltas',f'{MID}:dump'),('note events',f'{MID}:_format_note_on, _format_note_off')],observe=['bytes written'])
prop('C14','What can be expressed is written; what cannot is refused untouched',
 'With any pulses per quarter from 1 to 32767, any channel from 0 to 15, any middle C and any tempo that fits the format, every track whose tones fall in MIDI range, whose time signature fits (nominator up to 255) and in which less than 2^28 pulses pass before the first note and between each start or end of a note and the next is written without error. '
 'Settings outside the ranges for pulses per quarter and channel are refused with ValueError when the writer is created. '
 'If a tone, time signature, tempo or pause (2^28 pulses or more) cannot be expressed, writing raises an exception and not a single byte reaches the output.',
 ['inputs','configurations','fault_sequences'],'every configuration and track on both sides of the limits, with the unwritable note at any place in the track',
 'The limits of the constructor are tested, but no file is ever written above 255 pulses per quarter (it used to fail), and nothing checks the output after a failure.',
 [MID],[('constructor guards',f'{MID}:MIDIWriter.__init__'),('pitch guard',f'{MID}:_format_note_on'),('all formatting precedes the first write',f'{MID}:dump')])
prop('C15','Reading back a written track gives the same track',
 'For every track whose positions and durations fall on whole ticks and on multiples of 1/16384, whose notes of equal pitch do not overlap, and whose velocities are at least 1/127, writing and then reading with the same middle C gives a track with exactly the same positions, durations and tones, the same time signature (same nominator and denominator, given a non-zero nominator), and each velocity rounded down to a multiple of 1/127; the result equals the original when velocities are such multiples. '
 'This holds for every channel and pulses per quarter, and writing the result again with the same settings gives the same bytes.',
 ['inputs','configurations'],'every representable track and every configuration shared by writer and reader',
 'Random tracks with one note at a time, far apart, velocity 1, default configuration; abutting notes, chords, zero-length notes, other velocities, resolutions and channels are not reached (and == ignored missing notes).',
 [MID,TRK,SIG],[('writer scheduling',f'{MID}:MIDIWriter.dump'),('note pairing',f'{MID}:MIDIReader._parse_track'),('tick conversions',f'{MID}:_signature_to_pulses, _time_to_signature')])
prop('C16','Off-grid times survive a round trip within one tick and 1/16384',
 'For any track whose notes of equal pitch do not overlap and whose velocities are at least 1/127, at any resolution, writing and reading back loses and invents no note: each note returns with its tone, its velocity level, and a position and a duration that are never later or longer than the original and fall short by less than one tick plus 1/16384. '
 'Notes of equal pitch still do not overlap in the result.',
 ['inputs','configurations'],'every such track with arbitrary fine positions and durations, and every resolution',
 'Tests only round-trip multiples of 1/16 at 96 pulses per quarter.',
 [MID],[('rounding to ticks',f'{MID}:_signature_to_pulses'),('rounding to 1/16384',f'{MID}:_time_to_signature')])
prop('C17','Any bytes either load or are refused as a MIDI parsing error',
 'Reading any byte string terminates and either returns a track or raises the library\'s MIDI parsing error, never another exception (asking for a channel that has no note events raises ValueError). '
 'In particular a missing or short header or track, a format other than 0, a track count other than 1, a zero or SMPTE division, a chunk shorter than its declared size, a track without end-of-track, a data byte without running status and an undefined status byte are refused.',
 ['inputs'],'every byte string',
 'No malformed file is given to the reader by any test; several kinds crashed it with RecursionError or AssertionError.',
 [MID],[('bounds-checked cursor',f'{MID}:_Reader'),('chunk framing',f'{MID}:_read_chunks'),('event decoding',f'{MID}:_parse_track'),('header validation',f'{MID}:load')])
prop('C18','A valid file is read as the notes its events denote',
 'Reading a valid format-0 file yields exactly one note for each note-on (non-zero velocity) that starts a pitch not already sounding on its channel and for which a note-off (or note-on with velocity zero) of that pitch and channel follows later, with tone, velocity (n/127), position and duration given by the events and the file\'s division (times rounded down to 1/16384). '
 'All other events, of whatever kind and wherever placed - meta, system exclusive, controllers, programs, pressure, bends - and unknown chunks are skipped and only their delta times count; running status is honoured and ends at meta and system exclusive events.',
 ['inputs','programs'],'every valid single-track file: every sequence of events, delta times of one to four bytes, divisions 1..32767',
 'The reader is only ever given files written by this library, which contain two kinds of channel event, no running status and one channel.',
 [MID],[('event decoding state machine',f'{MID}:_parse_track'),('running status',f'{MID}:_parse_track'),('pairing of note-on and note-off',f'{MID}:_parse_track')],[('previous status','running status',f'{MID}:_parse_track'),('running notes','pitches sounding',f'{MID}:_parse_track')])
prop('C19','Channels are read separately or merged without loss',
 'Reading one channel returns exactly that channel\'s notes, and ValueError if a file with note events has none on it; reading without a channel returns the notes of all channels together. '
 'The time signature is the last one given for the channel by a preceding channel prefix, else the last one given for the whole file, else 4/4, with nominator and denominator as written; the merged track has the greatest of the signatures of the channels that have note events. Pitches sounding on different channels do not interfere.',
 ['inputs'],'every valid file with any mix of the 16 channels and time signature events, and every requested channel',
 'No test reads a file with more than one channel or asks for a channel.',
 [MID],[('per-channel event lists and signatures',f'{MID}:_parse_track'),('merge and selection',f'{MID}:load')])
prop('C20','An incompletely written file is never read as a track',
 'If writing a file stops at any byte before its end - process killed, disk full, output raising an error - the bytes that reached the output are refused by the reader with the MIDI parsing error, and an error raised by the output reaches the caller.',
 ['crash_points','fault_sequences'],'every writable track and every byte at which writing may stop',
 'No test truncates a file or makes an output fail.',
 [MID],[('declared chunk lengths written up front',f'{MID}:_format_chunk'),('incomplete chunk detection',f'{MID}:_read_chunks'),('required header and track',f'{MID}:load')])
prop('C21','Chord functions build the named intervals on any base',
 'Each chord function, under each of its names, returns one note per interval of its chord in ascending order starting with the base tone, at exactly the intervals that define the chord, for every base given as integer, notation, tone or note. '
 'All notes carry the requested duration and velocity; where omitted, those of the base note, or 1/4 and 0.75 if the base is not a note.',
 ['inputs'],'every chord function and alias, every base of every kind, every combination of given and omitted duration and velocity',
 'The chord module has no tests at all.',
 [CHO],[('parameter defaults',f'{CHO}:_get_parameters'),('interval tuples',f'{CHO}:all functions')])
prop('C22','The chord generator reproduces the shipped chord library',
 'Running the generator script, whether or not the output file exists already, produces a module that offers exactly the chord functions of the shipped chord module under the same names, each returning the same notes for every base, duration and velocity.',
 ['inputs','configurations'],'every chord function and argument combination of the generated module',
 'The generator is not run by any test.',
 [GEN,CHO],[('chord table and templates',GEN)])
prop('C23','Randomizing velocities changes nothing but velocities, within bounds',
 'Randomizing the velocities of a track returns a new track with the same time signature and the same notes at the same positions with the same tones and durations and multiplicities, and leaves the input track unchanged; every new velocity lies between the given minimum and maximum. '
 'Before clamping, velocities are independent normal draws with the given mean and variance, so with zero variance every velocity is the mean clamped to the bounds. '
 'Parameters left out are minimum 0.5, maximum 1, mean 0.75 and variance 0.01; bounds or a mean outside [0, 1] and negative variance are refused with ValueError.',
 ['inputs'],'every track and every parameter combination with minimum not above maximum, every state of the random generator',
 'The function has no tests at all.',
 [PRO],[('clamped Gaussian draw per note',f'{PRO}:randomize_velocities')])
prop('C24','All ways of writing and reading MIDI agree',
 'Writing to a file object, to a string of bytes, through the module functions or through a writer with the same settings (defaults: 96 pulses per quarter, middle C C3, 120 bpm, channel 0) produces the same bytes at the object\'s current position and nothing else, the same each time, and leaves the object open; reading from a file object (from its current position), from bytes, through the functions or through a reader gives the same track or refusal. '
 'Middle C may be given as tone, integer or notation with the same effect, and a tone written with one middle C and read with another comes back shifted by exactly their difference.',
 ['inputs','configurations'],'every track, settings and entry point, and repeated calls in any order',
 'Tests use one writing and one reading entry point.',
 [MID],[('delegation',f'{MID}:dump, dumps, load, loads'),('middle C conversion',f'{MID}:MIDIWriter.__init__, MIDIReader.__init__')])
prop('C25','The printed form of every object rebuilds an equal object',
 'Evaluating the repr of any tone, signature, note or track with the library\'s classes in scope gives an object with the same pitch, the same nominator and denominator, the same note attributes, or a track of equal signature and contents. '
 'The text form of a tone is its spelling, that of a signature "nominator/denominator", that of a note "Note D T (V)" with the text forms of its duration and tone and its velocity to three decimals, and that of a track "Track S with N notes" with the text form of its time signature and the number of notes.',
 ['inputs','histories'],'every tone, signature, note and track (numbers of fewer than 4300 digits)',
 'Only the text form of thirty tones is tested.',
 [SIG,TON,NOT,TRK],[('__repr__ and __str__ of the four classes',f'{SIG}, {TON}, {NOT}, {TRK}')])
prop('C26','What an operation gives depends only on the values it is given',
 'In every program over the library\'s public operations, the outcome of each call - its result, its refusal, what it adds to a track - is the one the values of its operands at that moment determine (apart from random draws): building and deriving tones, signatures, notes and chords, adding to, iterating, measuring, comparing, printing, randomizing, writing and reading tracks and files, in any order and number. '
 'Earlier calls, refused calls, unfinished iterations, objects let go of, reuse of writers and readers, and whether an operand is the same object as before or an equal one make no difference.',
 ['inputs','histories'],'every program over the public operations',
 'Tests call single operations on fresh objects.',
 [SIG,TON,NOT,TRK,MID,CHO,PRO],[('the classes and functions of the package',f'{SIG}, {TON}, {NOT}, {TRK}, {MID}, {CHO}, {PRO}')])
prop('C27','Equal tracks are written as the same bytes',
 'Two tracks whose time signatures have the same nominator and denominator and which hold the same notes at the same positions, with the same multiplicities, are written with the same settings as the same bytes (or both refused), however, in whatever order and in whatever terms of fractions they were built, and whatever was done with them in between.',
 ['inputs','histories'],'every pair of equal tracks, however built, and all settings',
 'No test writes two tracks built differently.',
 [TRK,MID],[('order of notes',f'{TRK}:__iter__'),('order of events',f'{MID}:MIDIWriter.dump')])
prop('C28','Threads that only read share objects safely',
 'While no thread adds to a track that others use, any number of threads may at the same time iterate, measure, compare, print, randomize and write the same tracks, derive from the same tones, signatures and notes, use the same writers and readers, build chords and build tracks of their own: each call gives what it would give alone, every thread comes to an end, and the shared objects are afterwards what they were.',
 ['inputs','schedules','histories'],'every combination of such calls in any number of threads, and every interleaving of them',
 'No test uses a thread.',
 [TRK,MID,SIG,TON,NOT,CHO,PRO],[('sorting on first iteration',f'{TRK}:__iter__'),('state of writers and readers',f'{MID}:MIDIWriter, MIDIReader')])
prop('C29','Calls made from within other calls do not disturb them',
 'The library may be called from within a call to it or from a loop over a track: by an output while it is written to, by an input while it is read, by an iterable while the notes or the content it gives are added to a track, by the body of a loop. '
 'Each such call gives what it gives on its own, and the call or loop it interrupts gives what the values of its operands at its beginning determine, with the same tracks, writers and readers or others, to any depth; that includes adding, at a given position, to the very track whose contents are being looped over or which notes are being added to. '
 'An error raised by such an output, input or iterable reaches the caller as it is, and an addition that ends so has at most placed notes given out before; everything involved remains usable.',
 ['inputs','histories','fault_sequences'],'every program over the public operations whose outputs, inputs, iterables and loops make calls of their own or raise errors (not asking a track that is in the middle of an addition for its contents, and not adding to a track while it is being written)',
 'No test calls the library from within a call.',
 [TRK,MID],[('adding the notes of an iterable',f'{TRK}:add, __init__'),('loops over tracks',f'{TRK}:__iter__'),('writing',f'{MID}:MIDIWriter.dump'),('reading',f'{MID}:MIDIReader.load')])
prop('C30','Copies of objects are equal to and independent of the originals',
 'A copy of a tone, signature, note or track made with copy.copy, copy.deepcopy or by pickling (protocol 2 or later) and unpickling is an object of the same class with the same value: the same pitch, the same nominator and denominator, the same attributes, or the same time signature, notes, positions, order and length. '
 'Adding to a track or to a copy of it, or to a copy of a copy, changes none of the others, whatever was asked of them before and after. Copies of writers and readers have the settings of the originals and write the same bytes and read the same tracks.',
 ['inputs','histories'],'every object of the library, every way of copying, and every program that goes on with original and copies',
 'No test copies or pickles anything.',
 [TRK,SIG,TON,NOT,MID],[('state of a copied track',f'{TRK}:__setstate__'),('attributes of a track',f'{TRK}:__slots__'),('attributes of the others',f'{SIG}, {TON}, {NOT}, {MID}')])
prop('C31','Results are the same in every process',
 'The same calls give the same results, refusals and bytes in every process of the interpreter: whatever its hash seed, with or without assertions (-O) and documentation (-OO), in the main thread or another, in whatever locale, time zone and folder, whenever garbage is collected, and whatever was done with the library in the process before (apart from random draws). '
 'The generator script, too, produces the same chord functions in every such process, and objects pickled in one process are, unpickled in another, what they were.',
 ['inputs','configurations','histories'],'every program over the public operations and every way of running the interpreter',
 'The tests run once, in one process of one kind, with assertions.',
 [SIG,TON,NOT,TRK,MID,CHO,GEN],[('refusals by condition, not by assertion',f'{TRK}:add; {MID}:MIDIWriter.__init__, MIDIReader.load'),('order of notes and events',f'{TRK}:__iter__; {MID}:MIDIWriter.dump'),('order of the generated functions',GEN)])
prop('C32','Calls given up in the middle leave everything as it was',
 'When an interrupt (KeyboardInterrupt, say) arrives at any point of a call that is not an addition to a track - going through its notes, measuring, comparing, printing or deriving, parsing, building, writing, reading - the call passes it on, and tracks, notes, signatures, tones, writers and readers are what they were before: '
 'the same call made again, and every later call on the same objects, gives the result it would have given without.',
 ['inputs','histories','fault_sequences'],'every program over the public operations, every call in it that is not an addition, and every point at which the interpreter looks for interrupts',
 'No test interrupts anything.',
 [TRK,MID,SIG],[('sorting at the first time of asking',f'{TRK}:__iter__'),('writing',f'{MID}:MIDIWriter.dump'),('reading',f'{MID}:MIDIReader.load, _parse_track')])
prop('C33','Calls touch nothing but what they are given',
 'No call of the library, whether it succeeds or fails, changes anything of the process and machine around it: no file, folder, environment variable, output, warning, thread, open descriptor, signal handler, process-wide setting (limits, decimal context, locale, garbage collection, import system) or other library, no state of the random module unless velocities are randomized, and no collection or buffer it is given apart from the output it writes to. '
 'Randomizing draws from the random module only: the same draws from the same random state give the same track and leave the same state. The generator script creates or changes no file but the one it is told to write.',
 ['inputs','histories'],'every program over the public operations, with calls that succeed and calls that fail',
 'The tests look at results, not at what is left behind.',
 [TRK,MID,SIG,TON,NOT,CHO,GEN,'src/melodia/processing/track.py'],[('draws','src/melodia/processing/track.py:randomize_velocities'),('given collections',f'{TRK}:add, __init__'),('outputs and inputs',f'{MID}:MIDIWriter.dump, MIDIReader.load'),('the file that is generated',f'{GEN}:main')])
prop('C34','Nothing piles up over calls',
 'The library does not keep what its users drop: however many calls are made on ever new tones, signatures, notes, tracks, files and settings, with ever new or always the same writers, readers and tracks, whether the calls succeed, fail or are left unfinished, '
 'the memory in use and the number of its objects alive stay, apart from what the user still holds, below a bound that does not depend on the number of calls (tables of bounded size are fine).',
 ['inputs','histories'],'every sequence of calls of any length whose results are dropped',
 'The tests make each call once or twice.',
 [TRK,MID,SIG,TON,NOT,CHO],[('tables and defaults shared by all calls',f'{TON}, {CHO}, {MID}: module and class level'),('state of objects used for long',f'{MID}:MIDIWriter, MIDIReader; {TRK}:__iter__')])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
