From c0db5613514b5758726e210a6d360298888d049b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 01/10] fix: keep operand order when scaling signatures to a
 common denominator

With the smaller denominator on the left the two nominators were returned
swapped, so 1/2 < 1/4 was True and Track.length could be too short.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 62aafe4d7e15426214b56035c903568d371ef7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 02/10] fix: tracks with a different number of notes are not
 equal

zip() stops at the shorter track, so a track was equal to any prefix of it.
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From 905ff126390bea5e43ba0e58605599028717a815 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 03/10] fix: read all four bytes of the MIDI chunk size

The most significant byte was dropped, so chunks of 16 MiB and more were cut.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..c97b7a6 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 214b0e30661da31297f2287d9a04a2a28c387bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 04/10] fix: stop at the end of a system exclusive message

A bytes object was compared to an integer, so the loop always ran to the end
of the track and every file with a SysEx event was rejected.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c97b7a6..fc25107 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -512,7 +512,7 @@ class MIDIReader:
                     # System exclusive
                     value = 0
                     while value != 0xF7:
-                        value = data.read(1)
+                        value = MIDIReader._read_8(data)
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From f7de956202fb24ab0167b00849dbbf37a721bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 05/10] fix: reject running status without a previous status

The reader recursed until RecursionError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index fc25107..99169d5 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -523,6 +523,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: running status without previous status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 9ec3d65723cc93fd9cd680b5297eec15b66f342e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 06/10] fix: reject MIDI files with zero division

They failed with AssertionError instead of MIDIParsingError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 99169d5..d71efe2 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -625,6 +625,8 @@ class MIDIReader:
                     raise MIDIParsingError(f'Unsupported MIDI file: format is {kind}')
                 if n_tracks != 1:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: division is zero')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
                 ticks_per_quarter = division
-- 
2.43.0


From 243e3439fbe5c3ac26ab9ec9c0ba6fd88b5e45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 07/10] fix: write MIDI clocks per metronome click, not pulses
 per quarter

The field is one byte and counts MIDI clocks (24 per quarter note), so every
track failed with OverflowError when pulses_per_quarter was above 255.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index d71efe2..6823b0f 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 66762d7f25fca497f7b326ae250d7857995c4cea Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 08/10] fix: reject tone notation with trailing characters

'C4xyz' was silently parsed as 'C4' although from_notation is documented to
raise ValueError when the notation can not be parsed.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From 80fda2f1c12156fabf7fbad6419685a839c02b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:16 +0000
Subject: [PATCH 09/10] fix: format both chunks before writing anything in
 MIDIWriter.dump

A track chunk too long for its four-byte length field was refused after the
header chunk had already been written.
---
 src/melodia/io/midi.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6823b0f..792d7ce 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -229,15 +229,20 @@ class MIDIWriter:
         # End of track
         delta_events.append((0, b'\xFF\x2F\x00'))
 
-        # Write header to file
-        file.write(self._format_header_chunk(kind=0, n_tracks=1))
-
-        # Write track to file
         track_body: List[bytes] = []
         for delta_time, event in delta_events:
             track_body.append(self._format_var_len(delta_time))
             track_body.append(event)
-        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))
+
+        # Nothing is written if any of the chunks can not be formatted
+        header_chunk = self._format_header_chunk(kind=0, n_tracks=1)
+        track_chunk = self._format_chunk(b'MTrk', b''.join(track_body))
+
+        # Write header to file
+        file.write(header_chunk)
+
+        # Write track to file
+        file.write(track_chunk)
 
     def dumps(self, track: Track) -> bytes:
         """
-- 
2.43.0


From 77cbf72da4c212c3b5dab8554414ae0930ed5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 10/10] fix: report a wrong meta event length as a parsing
 error however long the length is

The length is a variable-length quantity of any size; writing one of more than 4300 digits into the message raised ValueError.
---
 src/melodia/io/midi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 792d7ce..c685f37 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -475,18 +475,18 @@ class MIDIReader:
                 if kind == 0x2F:
                     # End of track
                     if length != 0x00:
-                        raise MIDIParsingError(f'Invalid MIDI file: end of track event has length {length} != 0')
+                        raise MIDIParsingError('Invalid MIDI file: end of track event must have length 0')
                     return _EventEndOfTrack()
                 elif kind == 0x20:
                     # Meta channel
                     if length != 0x01:
-                        raise MIDIParsingError(f'Invalid MIDI file: meta channel event has length {length} != 3')
+                        raise MIDIParsingError('Invalid MIDI file: meta channel event must have length 1')
                     channel = MIDIReader._read_8(data)
                     return _EventGlobalChannel(channel=channel)
                 elif kind == 0x58:
                     # Time signature
                     if length != 0x04:
-                        raise MIDIParsingError(f'Invalid MIDI file: time signature event has length {length} != 3')
+                        raise MIDIParsingError('Invalid MIDI file: time signature event must have length 4')
                     nn = MIDIReader._read_8(data)
                     dd = MIDIReader._read_8(data)
                     cc = MIDIReader._read_8(data)
-- 
2.43.0

