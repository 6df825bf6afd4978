From 147fa65ae711e5f92009ebf4a03b1fd4eb8c56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 01/19] fix: compare signatures in the right order when
 denominators grow

_to_common_denominator returned the operands swapped whenever the left
denominator was the smaller one, so Signature(1, 4) < Signature(1, 8) was
true. Track.length (and hence the default position of Track.add) came out
wrong whenever a long note followed a short one.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 23b56542dfdfd743d2228267b52601775e52c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 02/19] fix: tracks with different numbers of notes are not
 equal

Track.__eq__ zipped the two tracks, so an empty track compared equal to
every track with the same signature.
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From 85ba2b4ea27ddf000b659bbed85908ea4132d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 03/19] fix: make track iteration independent of other readers
 and of later adds

Iterating sorted the internal list in place and handed out an iterator over
it. Two threads reading the same track lost notes (a list is empty while it
is being sorted), and adding a note while iterating repeated or skipped
notes, or never finished.
---
 src/melodia/core/track.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index c5b52b1..2dc930d 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -140,10 +140,13 @@ class Track:
         :return: iterator of (position, note) pairs
         """
         if not self._sorted:
-            self._heap.sort()
+            # Sort a copy: list.sort() empties the list while it runs, so
+            # another thread reading this track would see no notes at all
+            self._heap = sorted(self._heap)
             self._sorted = True
 
-        return iter(self._heap)
+        # Iterate over a copy: notes added later must not disturb this iteration
+        return iter(self._heap[:])
 
     def __len__(self) -> int:
         """
-- 
2.43.0


From 66d51dbc891b3492f904d5a3eafeb8b31ef2464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 04/19] fix: a rejected add leaves the track unchanged

Track.add pushed its argument before looking at it, so adding something that
is not a note raised but left that object in the track.
---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 2dc930d..8fe79e6 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -104,11 +104,11 @@ class Track:
             self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]
 
         position_transformed = position.to(self._max_denominator)
+        end_position = position_transformed + note.duration
 
         heapq.heappush(self._heap, (position_transformed, note))
         self._sorted = False
 
-        end_position = position_transformed + note.duration
         if end_position > self._max_position:
             self._max_position = end_position
 
-- 
2.43.0


From 20874774e02486fde7ab88f213ef3de60d82fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 05/19] fix: write tracks with more than 255 pulses per quarter

The third value of the time signature event is the number of MIDI clocks per
metronome click (24 per quarter note), not the file resolution. Writing the
resolution there raised OverflowError for every pulses_per_quarter above 255.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..8c2f51e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 2e1db9eecb29a1524ed7350fd27bfc64e6604eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 06/19] fix: write the whole file to streams that accept data
 in parts

An unbuffered stream may accept fewer bytes than it is given and report how
many. The count was ignored, so dump() returned normally with a truncated
file.
---
 src/melodia/io/midi.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 8c2f51e..a7db808 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -40,6 +40,18 @@ class _Reader:
         return len(self._data)
 
 
+def _write_all(file: BinaryIO, data: bytes) -> None:
+    # Unbuffered streams may accept only a part of the data
+    while data:
+        written = file.write(data)
+        if written is None:
+            # File-like object which does not report the number of bytes
+            return
+        if written <= 0:
+            raise OSError('MIDI file can not be written: stream does not accept data')
+        data = data[written:]
+
+
 class MIDIWriter:
     """
     MIDI writer capable of writing `Track` objects to MIDI Spec. 1.1 files.
@@ -230,14 +242,14 @@ class MIDIWriter:
         delta_events.append((0, b'\xFF\x2F\x00'))
 
         # Write header to file
-        file.write(self._format_header_chunk(kind=0, n_tracks=1))
+        _write_all(file, self._format_header_chunk(kind=0, n_tracks=1))
 
         # Write track to file
         track_body: List[bytes] = []
         for delta_time, event in delta_events:
             track_body.append(self._format_var_len(delta_time))
             track_body.append(event)
-        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))
+        _write_all(file, self._format_chunk(b'MTrk', b''.join(track_body)))
 
     def dumps(self, track: Track) -> bytes:
         """
-- 
2.43.0


From d1fb70fd1e85469c0e83d98b5aec3063669c7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 07/19] fix: read the whole file from streams that deliver data
 in parts

read(n) of an unbuffered stream (pipe, socket, raw file) may return fewer
than n bytes before the end of data. load() took that for a truncated file
and rejected valid data.
---
 src/melodia/io/midi.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index a7db808..b763797 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -52,6 +52,19 @@ def _write_all(file: BinaryIO, data: bytes) -> None:
         data = data[written:]
 
 
+def _read_up_to(file: BinaryIO, n: int) -> bytes:
+    # Unbuffered streams may return only a part of the data before its end
+    parts: List[bytes] = []
+    while n > 0:
+        part = file.read(min(n, 1 << 20))
+        if not part:
+            break
+        parts.append(part)
+        n -= len(part)
+
+    return b''.join(parts)
+
+
 class MIDIWriter:
     """
     MIDI writer capable of writing `Track` objects to MIDI Spec. 1.1 files.
@@ -400,14 +413,14 @@ class MIDIReader:
     @staticmethod
     def _read_chunks(file: BinaryIO) -> Generator[Tuple[bytes, _Reader], None, None]:
         while True:
-            chunk_header = file.read(8)
+            chunk_header = _read_up_to(file, 8)
             if len(chunk_header) == 0:
                 break
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
             chunk_size = int.from_bytes(chunk_header[5:], 'big')
-            chunk_body = file.read(chunk_size)
+            chunk_body = _read_up_to(file, chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
             yield chunk_name, _Reader(chunk_body)
-- 
2.43.0


From 9f8cbdc579ed5e8918f51db10ae86989a7a1f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 08/19] fix: read all four bytes of the chunk size

The most significant byte was skipped, so chunks of 16 MiB and more (which
the writer produces) could not be read back.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index b763797..d93ace0 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -419,7 +419,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = _read_up_to(file, chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 5a4574278e379f2e683a3578d3bea9f9d461e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 09/19] fix: report data bytes without a status as a parsing
 error

A track whose first event has no status byte made the reader recurse until
RecursionError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index d93ace0..222e065 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -548,6 +548,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: running status without preceding status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From ffe2933671ce12100a78facbc999b1f18af2f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 10/19] fix: report zero division as a parsing error

A file with zero ticks per quarter note raised AssertionError (or
ZeroDivisionError under python -O).
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 222e065..9f8dca7 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -652,6 +652,8 @@ class MIDIReader:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: division is zero')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
                 if ticks_per_quarter is None:
-- 
2.43.0


From 250a5cf6f076761c913a34cb7813e5eca955ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 11/19] fix: skip system exclusive events

The loop compared bytes with an integer, never found the end of the event
and ran off the end of the track, so no file with a system exclusive event
could be read. In MIDI files these events carry their length.
---
 src/melodia/io/midi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 9f8dca7..679cc43 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -535,9 +535,8 @@ class MIDIReader:
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
                 elif status == 0xF0:
                     # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                    length = MIDIReader._read_var_len(data)
+                    data.read(length)
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From cf97235e119bf10ab7e208f49a9d21d6d877aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 12/19] fix: loading and saving a track again does not move its
 notes

The reader rounded times down to its own grid and the writer rounds down to
pulses, so notes that are not on both grids (any 1/256 note or triplet at 96
pulses per quarter) moved towards the beginning with every load and save.
---
 src/melodia/io/midi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 679cc43..dd76672 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -436,7 +436,11 @@ class MIDIReader:
     def _time_to_signature(time: int, ticks_per_quarter: int) -> Signature:
         assert ticks_per_quarter > 0, 'ticks_per_quarter must be positive'
 
-        return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()
+        # Round up with at least one unit per tick: converting the result back
+        # to ticks rounds down and gives exactly the same number of ticks
+        units = max(4096, 1 << (ticks_per_quarter - 1).bit_length())
+
+        return Signature(-(-time * units // ticks_per_quarter), 4 * units).normalized()
 
     def _pitch_to_tone(self, pitch: int) -> Tone:
         return Tone(pitch - self._middle_c_delta)
-- 
2.43.0


From 8679a63206792960935f63fe39b966821e3dc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 13/19] fix: skip system exclusive continuation events

The second form of the system exclusive event that MIDI files define (0xF7
with a length) was rejected as an unknown status.
---
 src/melodia/io/midi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index dd76672..7b4c8eb 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -537,8 +537,8 @@ class MIDIReader:
                         return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
 
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
-                elif status == 0xF0:
-                    # System exclusive
+                elif status in (0xF0, 0xF7):
+                    # System exclusive (or its continuation)
                     length = MIDIReader._read_var_len(data)
                     data.read(length)
                     return _EventUnsupported()
-- 
2.43.0


From 1db3b6716838eff11e18f93afe484f5be31add8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 14/19] fix: refuse pauses which do not fit into a
 variable-length quantity

Standard MIDI Files limit variable-length quantities to four bytes, longer
pauses were written as invalid five-byte delta times.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 7b4c8eb..3daf1d5 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -248,6 +248,8 @@ class MIDIWriter:
 
         last_absolute_time = 0
         for absolute_time, note_event in absolute_note_events:
+            if absolute_time - last_absolute_time > 0x0FFFFFFF:
+                raise ValueError('Pause between notes is too long to be written to midi file')
             delta_events.append((absolute_time - last_absolute_time, note_event))
             last_absolute_time = absolute_time
 
-- 
2.43.0


From f38ea4d40678afc9e350399752e3963acc08cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 15/19] fix: report variable-length quantities longer than four
 bytes as a parsing error

Reading a long damaged variable-length quantity took quadratic time.
---
 src/melodia/io/midi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 3daf1d5..fef3b5f 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -456,13 +456,14 @@ class MIDIReader:
 
         result &= 0x7F
 
-        while True:
+        # Variable-length quantities are at most four bytes long
+        for _ in range(3):
             value = int.from_bytes(data.read(1), 'big')
             result = (result << 7) + (value & 0x7F)
             if value & 0x80 == 0:
-                break
+                return result
 
-        return result
+        raise MIDIParsingError('Invalid MIDI file: variable-length quantity is longer than four bytes')
 
     @staticmethod
     def _read_8(data: _Reader) -> int:
-- 
2.43.0


From 0da83723617cfb6e511f38f124beba3e976208ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:15 +0000
Subject: [PATCH 16/19] fix: an interrupted add leaves the track ordered and
 its length right

---
 src/melodia/core/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 8fe79e6..55fe320 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -106,12 +106,14 @@ class Track:
         position_transformed = position.to(self._max_denominator)
         end_position = position_transformed + note.duration
 
-        heapq.heappush(self._heap, (position_transformed, note))
+        # The note comes in last: an interruption must not leave it in the track
+        # while the order or the length of the track do not account for it
         self._sorted = False
-
         if end_position > self._max_position:
             self._max_position = end_position
 
+        heapq.heappush(self._heap, (position_transformed, note))
+
     def __eq__(self, other: 'Track') -> bool:
         """
         Compares two tracks for equality. Tracks are equal if their signatures and contents are equal.
-- 
2.43.0


From 066d0b69df335384deb41a1a4b77e9349041a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 17/19] fix: a shallow copy of a track does not share its notes
 with the original

---
 src/melodia/core/track.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 55fe320..20f2602 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -114,6 +114,18 @@ class Track:
 
         heapq.heappush(self._heap, (position_transformed, note))
 
+    def __copy__(self) -> 'Track':
+        """
+        Returns copy of the track. The copy does not share notes with this track:
+        notes added to one of them later do not appear in the other one.
+
+        :return: copy of the track
+        """
+        return self.__class__(
+            signature=self._signature,
+            content=[(note, position) for position, note in self]
+        )
+
     def __eq__(self, other: 'Track') -> bool:
         """
         Compares two tracks for equality. Tracks are equal if their signatures and contents are equal.
-- 
2.43.0


From 83d5a901f63d2eef35c5fc1856f6fb4b077d3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 18/19] fix: reading a track must not lose notes that are added
 meanwhile

---
 src/melodia/core/track.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 20f2602..2b04f83 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -15,7 +15,7 @@ class Track:
         '_max_denominator',
         '_max_position',
         '_heap',
-        '_sorted'
+        '_ordered'
     )
 
     def __init__(
@@ -41,7 +41,7 @@ class Track:
         self._heap: List[Tuple[Signature, Note]] = []
         self._max_position: Signature = Signature(0, 1)
 
-        self._sorted = True
+        self._ordered: List[Tuple[Signature, Note]] = []
 
         if content is not None:
             for note, position in content:
@@ -107,8 +107,7 @@ class Track:
         end_position = position_transformed + note.duration
 
         # The note comes in last: an interruption must not leave it in the track
-        # while the order or the length of the track do not account for it
-        self._sorted = False
+        # while the length of the track does not account for it
         if end_position > self._max_position:
             self._max_position = end_position
 
@@ -153,14 +152,17 @@ class Track:
 
         :return: iterator of (position, note) pairs
         """
-        if not self._sorted:
-            # Sort a copy: list.sort() empties the list while it runs, so
-            # another thread reading this track would see no notes at all
-            self._heap = sorted(self._heap)
-            self._sorted = True
+        ordered = self._ordered
 
-        # Iterate over a copy: notes added later must not disturb this iteration
-        return iter(self._heap[:])
+        if len(ordered) != len(self._heap):
+            # Keep the ordered notes apart from the notes themselves: a note that is
+            # added while they are sorted (by another thread or by a signal handler)
+            # would be lost if they took the place of the notes
+            ordered = sorted(self._heap)
+            self._ordered = ordered
+
+        # Notes added later do not disturb this iteration: the ordered list never changes
+        return iter(ordered)
 
     def __len__(self) -> int:
         """
-- 
2.43.0


From 89a2a86ec717d912050ab12ba80f2ce40bb526b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:06 +0000
Subject: [PATCH 19/19] fix: compare tracks as they were when the comparison
 began

---
 src/melodia/core/track.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 2b04f83..cd7dd9c 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -136,10 +136,13 @@ class Track:
         if self._signature != other._signature:
             return False
 
-        if len(self) != len(other):
+        # Both are read once: a note added meanwhile must not make them look equal
+        content, other_content = list(self), list(other)
+
+        if len(content) != len(other_content):
             return False
 
-        for (ap, an), (bp, bn) in zip(self, other):
+        for (ap, an), (bp, bn) in zip(content, other_content):
             if an != bn or ap != bp:
                 return False
 
-- 
2.43.0

