From efc2ffcd7d9bbb99979627edb2d58dcf0da3986b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 01/14] fix: compare signatures in operand order when the left
 denominator is smaller

Signature(1, 2) < Signature(3, 4) was False: the two scaled nominators were
returned swapped, which also broke note ordering, track order and track length.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 1c8156d3e7769192ffd0f55e35783074c95fb333 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 02/14] fix: tracks with different numbers of notes are not
 equal

zip() stopped at the shorter track, so a track equalled any longer track it was a prefix of.
---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..35797ab 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -120,7 +120,7 @@ class Track:
         :return: True if tracks are equal, False otherwise
         """
 
-        if self._signature != other._signature:
+        if self._signature != other._signature or len(self) != len(other):
             return False
 
         for (ap, an), (bp, bn) in zip(self, other):
-- 
2.43.0


From e1120544eb621c6a6df325c61db0d19bff3a4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 03/14] fix: a rejected Track.add must not leave a non-note
 object in the track

Track.add(5) raised AttributeError only after 5 was already pushed into the track.
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 35797ab..b8f7ee7 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -97,6 +97,9 @@ class Track:
                 self.add(what=x, where=position)
             return
 
+        if not isinstance(what, Note):
+            raise TypeError('what must be a Note object or an iterable of Note objects')
+
         note: Note = what
 
         if position.denominator > self._max_denominator:
-- 
2.43.0


From adf3bacb7d8af978bb1fc2fb2d922824893e9159 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 04/14] fix: adding to a track does not disturb an iteration in
 progress

The iterator walked the live heap, so an add during iteration made it repeat,
skip or reorder notes, or never end.
---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index b8f7ee7..ffadade 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -143,7 +143,7 @@ class Track:
             self._heap.sort()
             self._sorted = True
 
-        return iter(self._heap)
+        return iter(self._heap[:])
 
     def __len__(self) -> int:
         """
-- 
2.43.0


From 517e5785b557920ece2c98e562c149566169e569 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 05/14] fix: write MIDI files with more than 255 pulses per
 quarter

The time signature event carries MIDI clocks per click (24 per quarter note),
not the file resolution, which does not fit in its byte above 255.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..8c2f51e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 76d2b8fbefc0d7922e5ea074039c9c21021f11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 06/14] fix: use all four bytes of the MIDI chunk size

The most significant byte was ignored, so large chunks were misread.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 8c2f51e..c861453 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 3134279e71ef92a37ed07d2afb663321f43fe953 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 07/14] fix: skip system exclusive events when reading MIDI
 files

The loop compared bytes with an int and so always ran to the end of the track.
In a MIDI file the event carries its length, as meta events do.
---
 src/melodia/io/midi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c861453..cc0fe22 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -510,9 +510,8 @@ class MIDIReader:
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
                 elif status == 0xF0:
                     # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                    length = MIDIReader._read_var_len(data)
+                    data.read(length)
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From 6ae4e97c14600d394004442a22d69a086f7270d4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 08/14] fix: reject MIDI data bytes without a running status

A data byte as the first event recursed forever; after a meta or system event,
which cancel running status, it was misread as another such event.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index cc0fe22..9b88416 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -522,6 +522,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None or previous_status >= 0xF0:
+                    raise MIDIParsingError('Invalid MIDI file: data byte without running status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 6d44405a0fe5a57500659caa141123917085a31c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 09/14] fix: reject MIDI files with zero division as invalid

They failed with an AssertionError instead of MIDIParsingError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 9b88416..aed541e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -626,6 +626,8 @@ class MIDIReader:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: division is zero')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
                 if ticks_per_quarter is None:
-- 
2.43.0


From 4942e62d675b3d1a9a68b0bba06970450577bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 10/14] fix: reject notation with trailing characters

'C4x' and 'C--1' were silently parsed as C4 and C0.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From 69d924488f184e00e414842fcb241b546d61e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 11/14] fix: skip continued system exclusive (F7) events when
 reading MIDI files

They are laid out as F0 events are and were refused as an unknown status.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index aed541e..931c72f 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -508,7 +508,7 @@ class MIDIReader:
                         return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
 
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
-                elif status == 0xF0:
+                elif status in (0xF0, 0xF7):
                     # System exclusive
                     length = MIDIReader._read_var_len(data)
                     data.read(length)
-- 
2.43.0


From 6a5ba087143fa674d19bcd887f78b3dac880de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:30 +0000
Subject: [PATCH 12/14] fix: refuse to write pauses that do not fit a MIDI
 delta time

---
 src/melodia/io/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 931c72f..65614b3 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -223,6 +223,9 @@ class MIDIWriter:
 
         last_absolute_time = 0
         for absolute_time, note_event in absolute_note_events:
+            if absolute_time - last_absolute_time > 0x0FFFFFFF:
+                raise ValueError('Pause between events is too long to be written to midi file')
+
             delta_events.append((absolute_time - last_absolute_time, note_event))
             last_absolute_time = absolute_time
 
-- 
2.43.0


From 47696568d4f429d5716241f04cc2834fc8f39ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:13 +0000
Subject: [PATCH 13/14] fix: iterate over a track safely from several threads

Sorting the list in place left it empty for other threads while it was
being sorted, so that they saw a track without notes.
---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ffadade..a0161fe 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -140,7 +140,7 @@ class Track:
         :return: iterator of (position, note) pairs
         """
         if not self._sorted:
-            self._heap.sort()
+            self._heap = sorted(self._heap)
             self._sorted = True
 
         return iter(self._heap[:])
-- 
2.43.0


From 8c8578903ad85041a5368ede24c7e64c7a24b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 14/14] fix: copy the notes of a track along with the track

copy.copy gave the copy the same list of notes, so that adding to the copy
put notes into the original, of which its length did not know.
---
 src/melodia/core/track.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index a0161fe..402fe56 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -115,6 +115,20 @@ class Track:
         if end_position > self._max_position:
             self._max_position = end_position
 
+    def __setstate__(self, state: Tuple[Optional[dict], dict]) -> None:
+        """
+        Restores the state of a copied or unpickled track.
+        Notes are copied, so that adding to the copy does not change the original.
+
+        :param state: pair of the instance dictionary (or None) and the dictionary of the slots
+        :return: None
+        """
+        for attributes in state:
+            for name, value in (attributes or {}).items():
+                setattr(self, name, value)
+
+        self._heap = self._heap[:]
+
     def __eq__(self, other: 'Track') -> bool:
         """
         Compares two tracks for equality. Tracks are equal if their signatures and contents are equal.
-- 
2.43.0

