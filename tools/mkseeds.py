#!/usr/bin/env python3
"""Builds seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the list below, confirming in a scratch copy of /repo
that the change applies, the stable tests still pass, and the demonstration passes without and fails with the change.
usage: mkseeds.py [id ...]      (never run by a check)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, file, *rest):
    old, new, needs, breaks, demo = rest if isinstance(file, str) else (None, None) + rest[-3:]
    S.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs, breaks=breaks, demo=demo))
SIG, TONE, NOTE, TRACK = ('src/melodia/core/%s.py' % x for x in ('signature', 'tone', 'note', 'track'))
MIDI, CHORD, PROC = 'src/melodia/io/midi.py', 'src/melodia/music/chord.py', 'src/melodia/processing/track.py'

seed('c02-float-scale', 'C02', SIG, 'return n1, d1 // d2 * n2, d1', 'return n1, int(d1 / d2 * n2), d1',
     'a nominator above 2**53 on the operand with the smaller denominator',
     'comparison of signatures goes through a float and confuses neighbouring fractions',
     'a = Signature(2 * (2 ** 53 + 1), 4)\nb = Signature(2 ** 53 + 1, 2)\nassert a == b and not a < b and not a > b')
seed('c03-zero-not-normalized', 'C03', SIG, 'while n & 1 == 0 and d > 1:', 'while n and n & 1 == 0 and d > 1:',
     'normalizing a zero signature with a denominator above 1', 'zero is not reduced to 0/1',
     's = Signature(0, 8).normalized()\nassert (s.nominator, s.denominator) == (0, 1)')
seed('c04-two-digit-octave', 'C04', TONE, '(?P<octave>-?\\d+)', '(?P<octave>-?\\d{1,2})',
     'an octave number with three digits', 'valid notations with a long octave number are refused',
     "assert Tone.from_notation('C100').pitch == 1200\nassert Tone.from_notation('A-120').pitch == -1431")
seed('c12-sorted-flag-kept', 'C12', TRACK, 'self._sorted = False', 'self._sorted = self._sorted and position_transformed >= self._max_position',
     'a zero-length note at the end of the track, a second smaller one at the same position after an iteration',
     'iteration yields equal positions with the notes out of order',
     "t = Track()\nfor p in (1, 3, 2): t.add(Note(p, (0, 1)), (0, 1))\nassert [n.tone.pitch for _, n in t] == [1, 2, 3]")
seed('c14-velocity-ignored', 'C14', TRACK, 'if an != bn or ap != bp:', 'if an.tone != bn.tone or an.duration != bn.duration or ap != bp:',
     'two tracks that differ only in the velocity of a note', 'different tracks compare equal',
     "a = Track(content=[(Note('C3', (1, 4), 0.5), (1, 2))])\nb = Track(content=[(Note('C3', (1, 4), 0.25), (1, 2))])\nassert not a == b")
seed('c15-28-bits', 'C15', MIDI, 'result = (result << 7) + (value & 0x7F)', 'result = ((result << 7) + (value & 0x7F)) & 0xFFFFFFF',
     'a variable-length quantity of at least 2**28', 'the upper bits of a long quantity are lost when reading',
     "from melodia.io.midi import MIDIReader, MIDIWriter, _Reader\nfor x in (2 ** 28 - 1, 2 ** 28, 2 ** 40 + 5): assert MIDIReader._read_var_len(_Reader(MIDIWriter._format_var_len(x))) == x, x")
seed('c16-tempo-wraps', 'C16', MIDI, "tempo.to_bytes(3, 'big')", "(tempo & 0xFFFFFF).to_bytes(3, 'big')",
     'a tempo below 3.6 beats per minute', 'a tempo that does not fit its field is wrapped instead of refused',
     "from melodia.io.midi import dumps\ntry: b = dumps(Track(), bpm=1.0)\nexcept (OverflowError, ValueError): b = None\nassert b is None")
seed('c17-off-time-of-sum', 'C17', MIDI, 'note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)', 'note_off_absolute_time = self._signature_to_pulses(position + note.duration)',
     'a position and a duration that are both not whole numbers of pulses', 'the note-off is one pulse late',
     "from melodia.io.midi import MIDIWriter\nb = MIDIWriter(pulses_per_quarter=1).dumps(Track(content=[(Note('C3', (1, 8)), (1, 8))]))\nassert bytes([0, 0x90, 60]) in b and bytes([0, 0x80, 60]) in b")
seed('c18-program-change-channel-16', 'C18', MIDI, 'for i in range(0xC0, 0xCF + 1):', 'for i in range(0xC0, 0xCF):',
     'a program change on the last channel', 'a skippable event makes the file unreadable',
     "from melodia.io.midi import loads\nbody = bytes([0, 0xCF, 5, 0, 0x90, 60, 100, 96, 0x80, 60, 0, 0, 0xFF, 0x2F, 0])\nd = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body\nassert len(loads(d)) == 1")
seed('c19-velocity-unclamped', 'C19', MIDI, 'velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))', 'velocity: float = note_on.velocity / 127.0',
     'a note-on whose velocity byte has the high bit set', 'reading raises ValueError instead of a track or a parsing error',
     "from melodia.io.midi import loads, MIDIError\nbody = bytes([0, 0x90, 60, 200, 96, 0x80, 60, 0, 0, 0xFF, 0x2F, 0])\nd = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body\ntry: loads(d)\nexcept MIDIError: pass")
seed('c20-largest-nominator', 'C20', MIDI, 'if track.signature > max_signature:', 'if track.signature.nominator > max_signature.nominator:',
     'channels with time signatures of different denominators', 'the common track gets the signature with the largest nominator, not the largest signature',
     "from melodia.io.midi import loads\nbody = bytes([0, 0xFF, 0x20, 1, 0, 0, 0xFF, 0x58, 4, 3, 1, 24, 8, 0, 0xFF, 0x20, 1, 1, 0, 0xFF, 0x58, 4, 5, 3, 24, 8, 0, 0x90, 60, 100, 0, 0x91, 60, 100, 96, 0x80, 60, 0, 0, 0x81, 60, 0, 0, 0xFF, 0x2F, 0])\nd = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body\nassert loads(d).signature == Signature(3, 2), loads(d).signature")
seed('c22-zero-velocity', 'C22', CHORD, "    if velocity is None:\n        if isinstance(base, Note):", "    if not velocity:\n        if isinstance(base, Note):",
     'a chord asked for with velocity 0.0', 'the chord gets the default velocity instead of 0.0',
     "from melodia.music import chord\nassert [n.velocity for n in chord.major(60, (1, 4), 0.0)] == [0.0] * 3")
seed('c23-nan-variance', 'C23', PROC, 'if not variance >= 0:', 'if variance < 0:',
     'a variance that is not a number', 'a NaN variance is accepted',
     "from melodia.processing.track import randomize_velocities\ntry: randomize_velocities(Track(), variance=float('nan')); ok = False\nexcept ValueError: ok = True\nassert ok")
seed('c24-velocity-digits', 'C24', NOTE, 'velocity={velocity}) \'', 'velocity={velocity:.12g}) \'',
     'a velocity that needs more than 12 significant digits', 'the representation of a note evaluates to a note with another velocity',
     "n = Note(60, (1, 4), 1 / 3)\nassert eval(repr(n)) == n")
seed('c01-zero-reduced-in-place', 'C01', SIG, '        n, d = self._nominator, self._denominator\n\n        while', '        if self._nominator == 0:\n            self._denominator = 1\n            return self\n\n        n, d = self._nominator, self._denominator\n\n        while',
     'normalizing a zero signature with a denominator above 1, while keeping the original', 'normalizing changes the signature it is called on',
     's = Signature(0, 8)\nt = s.normalized()\nassert (t.nominator, t.denominator) == (0, 1)\nassert (s.nominator, s.denominator) == (0, 8)')
seed('c01-huge-denominator', 'C01', SIG, "denominator > 0 and (denominator & (denominator - 1) == 0)):\n            raise ValueError(\n", "denominator > 0 and bin(denominator)[:34].count('1') == 1):\n            raise ValueError(\n",
     'a denominator with more than 32 bits that is a power of two only in its leading 32 bits', 'a denominator that is not a power of two is accepted',
     'try: Signature(1, 2 ** 40 + 1); ok = False\nexcept ValueError: ok = True\nassert ok and Signature(1, 2 ** 40).denominator == 2 ** 40')
seed('c05-octave-by-float', 'C05', TONE, "        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n", "        base_pitch = self._pitch % 12\n        octave = round((self._pitch - base_pitch) / 12)\n",
     'a pitch beyond 12 * 2**53', 'the octave number of the notation is rounded to a float',
     'p = 12 * (2 ** 53 + 1)\nassert Tone.from_notation(Tone(p).to_notation()).pitch == p')
seed('c06-identity', 'C06', TONE, 'return self._pitch == other._pitch', 'return self._pitch is other._pitch',
     'two tones whose equal pitches are different integer objects, so above 256 or below -5', 'equal tones compare unequal',
     'a, b = Tone(int("300")), Tone(int("300"))\nassert a == b\nassert Tone(int("-40")) == Tone(int("-40"))')
seed('c06-octave-truncated', 'C06', TONE, '\n        return self._pitch // 12\n\n    @classmethod', '\n        return int(self._pitch / 12 - (self._pitch < 0 and self._pitch % 12 > 0))\n\n    @classmethod',
     'a pitch beyond 12 * 2**53', 'the octave of a very high tone is rounded to a float',
     'assert Tone(12 * (2 ** 53 + 1)).octave == 2 ** 53 + 1\nassert Tone(-1).octave == -1 and Tone(-12).octave == -1 and Tone(23).octave == 1')
seed('c07-base-of-a4', 'C07', TONE, '        return base * 2 ** ((self._pitch - 57) / 12)', '        octaves, semitones = divmod(self._pitch - 57, 12)\n        return base * 2.0 ** octaves * 2 ** (semitones / 12) if semitones else 440.0 * 2.0 ** octaves',
     'a tone A of any octave and a base frequency other than 440 Hz', 'the tones A ignore the base frequency',
     'assert abs(Tone(57).to_frequency(432.0) - 432.0) < 1e-9 and abs(Tone(58).to_frequency(432.0) - 432.0 * 2 ** (1 / 12)) < 1e-9')
seed('c08-nan-velocity', 'C08', NOTE, 'if not 0.0 <= velocity <= 1.0:', 'if velocity < 0.0 or velocity > 1.0:',
     'a velocity that is not a number', 'a NaN velocity is accepted',
     "try: Note(60, (1, 4), float('nan')); ok = False\nexcept ValueError: ok = True\nassert ok")
seed('c08-shared-default', 'C08', NOTE, '            self._duration = duration\n        elif', '            self._duration = duration.normalized() if duration.denominator > 4096 else duration\n        elif',
     'a duration with a denominator above 4096 that is not in lowest terms', 'the note reports another nominator and denominator than it was given',
     'n = Note(60, Signature(2, 8192))\nassert (n.duration.nominator, n.duration.denominator) == (2, 8192)')
seed('c09-zero-velocity-kept', 'C09', NOTE, '            duration=self._duration,\n            velocity=velocity\n        )\n', '            duration=self._duration,\n            velocity=velocity or self._velocity\n        )\n',
     'replacing the velocity by 0.0', 'the old velocity is kept',
     'assert Note(60).with_velocity(0.0).velocity == 0.0')
seed('c09-transposed-out-of-range', 'C09', NOTE, '            tone=self._tone.transposed(transposition),\n            duration=self._duration,\n', '            tone=self._tone.transposed(transposition),\n            duration=self._duration.normalized(),\n',
     'a note whose duration is not in lowest terms', 'transposing rewrites the duration',
     'n = Note(60, (2, 8)).transposed(5)\nassert (n.duration.nominator, n.duration.denominator) == (2, 8)')
seed('c10-duration-nominators', 'C10', NOTE, '        return self._as_triplet() <= other._as_triplet()', "        if self._tone == other._tone and self._duration == other._duration:\n            return self._velocity < other._velocity or self._velocity == other._velocity and self._duration.denominator <= other._duration.denominator\n        return self._as_triplet() < other._as_triplet()",
     'two equal notes whose durations are written with different denominators', 'equal notes are not <= each other in one direction',
     'a, b = Note(60, (2, 8)), Note(60, (1, 4))\nassert a == b and a <= b and b <= a')
seed('c11-duplicate-dropped', 'C11', TRACK, 'heapq.heappush(self._heap, (position_transformed, note))', 'if (position_transformed, note) not in self._heap:\n            heapq.heappush(self._heap, (position_transformed, note))',
     'the same note added twice at the same position', 'the second copy of a note is dropped',
     "t = Track()\nfor _ in range(2): t.add(Note(60), (1, 4))\nassert len(t) == 2")
seed('c13-length-by-nominator', 'C13', TRACK, 'if end_position > self._max_position:', 'if end_position.denominator != self._max_position.denominator or end_position > self._max_position:',
     'a note that ends before the track end and whose end has another denominator', 'the length of the track shrinks',
     "t = Track()\nt.add(Note(60, (4, 4)), (0, 1))\nt.add(Note(60, (1, 8)), (0, 1))\nassert t.length == Signature(1, 1), t.length")

MIDIHDR = "def smf(body, div=96): return b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1]) + div.to_bytes(2, 'big') + b'MTrk' + len(body).to_bytes(4, 'big') + body\nEOT = bytes([0, 0xFF, 0x2F, 0])\n"
GEN = 'scripts/generate_chords.py'
seed('c03-zero-shrinks', 'C03', SIG, 'if denominator > self._denominator:', 'if denominator > self._denominator or self._nominator == 0:',
     'rescaling a zero signature to a smaller denominator', 'a smaller denominator is accepted for zero instead of refused',
     'try: Signature(0, 8).to(4); ok = False\nexcept ValueError: ok = True\nassert ok')
seed('c03-normalize-64', 'C03', SIG, '        while n & 1 == 0 and d > 1:\n            n >>= 1', '        for _ in range(64):\n            if n & 1 or d == 1:\n                break\n            n >>= 1',
     'a fraction with more than 64 common factors of two', 'normalizing does not reach lowest terms',
     's = Signature(2 ** 70, 2 ** 80).normalized()\nassert (s.nominator, s.denominator) == (1, 2 ** 10)')
seed('c04-eight-accidentals', 'C04', TONE, '[#b]*)', '[#b]{0,8})',
     'a notation with more than eight accidentals', 'valid notations with many accidentals are refused',
     "assert Tone.from_notation('C#########4').pitch == 57")
seed('c04-stripped', 'C04', TONE, '(?P<octave>-?\\d+)?', '(?P<octave>-?\\d+)?\\s*',
     'a notation followed by white space', 'a string that is not a notation is accepted',
     "for s in ('C4 ', 'C4\\n', 'A\\t'):\n    try: Tone.from_notation(s); ok = False\n    except ValueError: ok = True\n    assert ok, s")
seed('c05-str-negative-flat', 'C05', TONE, '        return self.to_notation()', '        return self.to_notation(transpose_down=self._pitch < 0)',
     'the text form of a tone below C0 on a black key', 'the text form is not the default notation',
     "assert str(Tone(-11)) == 'C#-1', str(Tone(-11))")
seed('c06-integral-float', 'C06', TONE, 'if not isinstance(pitch, int):', 'if not isinstance(pitch, (int, float)) or pitch != int(pitch):',
     'a pitch given as a float with an integral value', 'a non-integer pitch is accepted',
     'try: Tone(3.0); ok = False\nexcept ValueError: ok = True\nassert ok')
seed('c07-rounded', 'C07', TONE, 'return base * 2 ** ((self._pitch - 57) / 12)', 'return round(base * 2 ** ((self._pitch - 57) / 12), 9)',
     'very low tones', 'frequencies of very low tones no longer double every twelve semitones, or become 0',
     'for p in (57, -300, -600): assert Tone(p).to_frequency() > Tone(p - 1).to_frequency() > 0')
seed('c08-triple', 'C08', NOTE, 'self._duration = Signature(*duration)', 'self._duration = Signature(*list(duration)[:2])',
     'a duration given as three numbers', 'a duration that is not a pair is accepted',
     'try: Note(60, (1, 4, 9)); ok = False\nexcept (TypeError, ValueError): ok = True\nassert ok')
seed('c09-no-duration', 'C09', NOTE, '            tone=self._tone,\n            duration=duration,\n', '            tone=self._tone,\n            duration=duration if duration is not None else self._duration,\n',
     'replacing the duration by None', 'an invalid duration is accepted when deriving, though the constructor refuses it',
     'try: Note(60).with_duration(None); ok = False\nexcept TypeError: ok = True\nassert ok')
seed('c10-velocity-rounded', 'C10', NOTE, 'return self._tone, self._duration, self._velocity', 'return self._tone, self._duration, round(self._velocity, 12)',
     'two notes whose velocities differ by less than 1e-12', 'notes of different velocity compare equal',
     'a, b = Note(60, (1, 4), 0.5), Note(60, (1, 4), 0.5 + 2 ** -45)\nassert a != b and a < b and not b <= a')
seed('c11-empty-group', 'C11', TRACK, '        position: Signature\n        if where is None:', '        position: Signature\n        if isinstance(what, (list, tuple)) and not what:\n            return\n        if where is None:',
     'adding an empty group at an invalid position', 'an invalid position is not refused',
     't = Track()\ntry: t.add([], (1, 3)); ok = False\nexcept ValueError: ok = True\nassert ok')
seed('c12-three-notes', 'C12', TRACK, 'self._sorted = False', 'self._sorted = len(self._heap) <= 3',
     'a track of exactly three notes, the second added being the last', 'a heap of three is taken to be sorted',
     't = Track()\nfor k in (1, 3, 2): t.add(Note(60), (k, 4))\nassert [p.nominator for p, _ in t] == [1, 2, 3]')
seed('c12-iterator-of-heap', 'C12', TRACK, '            self._heap.sort()\n            self._sorted = True', '            self._heap.sort(key=lambda pair: (pair[0], pair[1].tone.pitch, pair[1].duration.nominator / pair[1].duration.denominator, pair[1].velocity))\n            self._sorted = True',
     'two notes of one tone at one position whose durations differ by less than a float can tell', 'notes at equal positions are not in ascending order of the notes',
     't = Track()\nx = 2 ** 60\nt.add([Note(60, (x + 1, 1), 0.1), Note(60, (x, 1), 0.9)], (0, 1))\nassert [n.velocity for _, n in t] == [0.9, 0.1]')
seed('c13-float-compare', 'C13', TRACK, '        if end_position > self._max_position:', '        if end_position.nominator / end_position.denominator > self._max_position.nominator / self._max_position.denominator:',
     'two ends that differ by less than a float can tell', 'the length is not the right-most end',
     't = Track()\nt.add(Note(60, (2 ** 60, 1)), (0, 1))\nt.add(Note(60, (2 ** 60 + 1, 1)), (0, 1))\nassert t.length == Signature(2 ** 60 + 1, 1)')
seed('c14-signature-nominators', 'C14', TRACK, 'if self._signature != other._signature:', 'if self._signature.nominator != other._signature.nominator:',
     'tracks whose time signatures have equal nominators and different denominators, or equal fractions written differently', 'time signatures are compared by their nominators',
     'assert not Track(signature=(3, 4)) == Track(signature=(3, 8)) and Track(signature=(2, 4)) == Track(signature=(4, 8))')
seed('c15-writer-four-bytes', 'C15', MIDI, '        while x > 0:\n            buffer <<= 8', '        while x > 0 and buffer < 1 << 24:\n            buffer <<= 8',
     'a quantity of at least 2**28 (or one whose lowest seven bits are not zero and needs five bytes)', 'the upper bits of a long quantity are dropped',
     'from melodia.io.midi import MIDIWriter\nx = 2 ** 28 + 5\nassert MIDIWriter._format_var_len(x) == bytes([0x81, 0x80, 0x80, 0x80, 5])')
seed('c16-velocity-epsilon', 'C16', MIDI, 'int(note.velocity * 127)', 'int(note.velocity * 127 + 1e-9)',
     'a velocity just below a multiple of 1/127', 'the velocity is rounded up',
     'from melodia.io.midi import MIDIWriter\nv = 1 - 2 ** -50\nassert int(v * 127) == 126\nassert MIDIWriter()._format_note_on(Note(60, (1, 4), v))[2] == 126')
seed('c17-float-pulses', 'C17', MIDI, 'return self._pulses_per_whole * normalized.nominator // normalized.denominator', 'return int(self._pulses_per_whole * normalized.nominator / normalized.denominator)',
     'a position of more than 2**53 pulses', 'the time of a far note goes through a float',
     "from melodia.io.midi import MIDIWriter\nw = MIDIWriter()\nassert w._signature_to_pulses(Signature(2 ** 53 + 1, 1)) == 384 * (2 ** 53 + 1)")
seed('c18-song-position', 'C18', MIDI, '_event_lengths[0xF2] = 2', '_event_lengths[0xF2] = 1',
     'a song position pointer', 'the event is skipped by one byte too few, so everything after it is misread',
     MIDIHDR + "from melodia.io.midi import loads\nassert len(loads(smf(bytes([0, 0xF2, 5, 0, 0, 0x90, 60, 100, 96, 0x80, 60, 0]) + EOT))) == 1")
seed('c18-chunk-length-24-bits', 'C18', MIDI, 'chunk_body = file.read(chunk_size)', 'chunk_body = file.read(chunk_size & 0xFFFFFF)',
     'a chunk of 16 MB or more', 'the upper byte of a chunk length is ignored',
     "from melodia.io.midi import MIDIReader\nclass F:\n    def __init__(self): self.calls = []\n    def read(self, n): self.calls.append(n); return b'MTrk' + (2 ** 24 + 7).to_bytes(4, 'big') if len(self.calls) == 1 else b''\nf = F()\ntry: list(MIDIReader._read_chunks(f))\nexcept Exception: pass\nassert f.calls[1] == 2 ** 24 + 7, f.calls")
seed('c18-prefix-time', 'C18', MIDI, '                global_channel = event.channel\n', '                global_channel = event.channel\n                last_time -= delta_time\n',
     'a channel prefix with a delta time that is not zero', 'the delta time of a channel prefix is lost',
     MIDIHDR + "from melodia.io.midi import loads\nt = loads(smf(bytes([96, 0xFF, 0x20, 1, 0, 0, 0x90, 60, 100, 96, 0x80, 60, 0]) + EOT))\nassert [p for p, _ in t] == [Signature(1, 4)]")
seed('c18-meta-running', 'C18', MIDI, "                    # Skip unsupported meta event body\n                    data.read(length)", "                    # Skip unsupported meta event body\n                    data.read(length & 0x3FFF)",
     'an unsupported meta event of 16384 bytes or more', 'a long meta event is not skipped by its length',
     MIDIHDR + "from melodia.io.midi import loads\nt = loads(smf(bytes([0, 0xFF, 1, 0x81, 0x80, 0]) + bytes(16384) + bytes([0, 0x90, 60, 100, 96, 0x80, 60, 0]) + EOT))\nassert [p for p, _ in t] == [Signature(0, 1)] and len(t) == 1")
seed('c19-sysex-interrupted', 'C19', MIDI, 'while value != 0xF7:', 'while value != 0xF7 and data._data[data._idx] != 0xFF:',
     'a system exclusive message without its end', 'reading raises IndexError instead of the parsing error',
     MIDIHDR + "from melodia.io.midi import loads, MIDIError\ntry: loads(smf(bytes([0, 0xF0, 1, 2, 3])))\nexcept MIDIError: pass")
seed('c19-recursive-sysex', 'C19', MIDI, '                    length = _event_lengths[status]\n                    if length == -1:', "                    length = _event_lengths[status]\n                    if status == 0xF8 and data._idx < len(data):\n                        return read_event()\n                    if length == -1:",
     'a long run of timing clock bytes', 'the reader recurses without bound',
     MIDIHDR + "from melodia.io.midi import loads, MIDIError\ntry: loads(smf(bytes([0]) + bytes([0xF8]) * 5000 + EOT))\nexcept MIDIError: pass")
seed('c20-retrigger', 'C20', MIDI, '                    if event.pitch in running_notes:\n                        continue\n', '                    if event.pitch in running_notes and running_notes[event.pitch][0] != absolute_time:\n                        continue\n',
     'two note-ons of one key at the same time with different velocities', 'the second note-on of a sounding key replaces the first',
     MIDIHDR + "from melodia.io.midi import loads\nt = loads(smf(bytes([0, 0x90, 60, 127, 0, 0x90, 60, 1, 96, 0x80, 60, 0]) + EOT))\nassert [n.velocity for _, n in t] == [1.0]")
seed('c20-prefix-only-own', 'C20', MIDI, 'signature = channel_signatures.get(-1, Signature(4, 4))', 'signature = channel_signatures.get(min(channel_signatures, default=-1), Signature(4, 4))',
     'a time signature for one channel only, and notes on another', 'the signature of another channel is used instead of 4/4',
     MIDIHDR + "from melodia.io.midi import loads\nb = smf(bytes([0, 0xFF, 0x20, 1, 3, 0, 0xFF, 0x58, 4, 3, 3, 24, 8, 0, 0x91, 60, 100, 96, 0x81, 60, 0]) + EOT)\nassert loads(b, channel=1).signature == Signature(4, 4)")
seed('c21-velocity-rounded', 'C21', MIDI, 'velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))', 'velocity: float = max(0.0, min(1.0, round(note_on.velocity / 127.0, 3)))',
     'a velocity whose multiple of 1/127 is rounded down by three digits', 'velocities change by the round trip, and writing again gives other bytes',
     "from melodia.io.midi import dumps, loads\nb = dumps(Track(content=[(Note('C3', (1, 4), 0.25), (0, 1))]))\nassert dumps(loads(b)) == b\nassert all(dumps(loads(c)) == c for c in [dumps(Track(content=[(Note('C3', (1, 4), k / 127), (0, 1))])) for k in range(2, 128)])")
seed('c21-middle-c-octaves', 'C21', MIDI, 'return Tone(pitch - self._middle_c_delta)', 'return Tone(pitch - self._middle_c_delta // 12 * 12)',
     'a middle C that is not a tone C', 'tones are shifted by the round trip',
     "from melodia.io.midi import MIDIWriter, MIDIReader\nt = Track(content=[(Note('C3', (1, 4)), (0, 1))])\nu = MIDIReader(middle_c='D3').loads(MIDIWriter(middle_c='D3').dumps(t))\nassert [n.tone for _, n in u] == [Tone.from_notation('C3')]")
seed('c21-overlap-order', 'C21', MIDI, '            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n', '            absolute_note_events.insert(0, (note_off_absolute_time, note_off_event))\n            absolute_note_events.insert(0, (note_on_absolute_time, note_on_event))\n',
     'a note that ends exactly when the next one of the same tone starts', 'the next note is switched on before the first one is switched off, so it is lost when reading',
     "from melodia.io.midi import dumps, loads\nt = Track(content=[(Note('C3', (1, 4), 1.0), (0, 1)), (Note('C3', (1, 4), 1.0), (1, 4))])\nassert loads(dumps(t)) == t")
seed('c22-generator-alias', 'C22', GEN, "Chord('minor7b5,min7b5', 'Half Diminished Seventh', [0, 3, 6, 10]),", "Chord('minor7b5,min7b5', 'Half Diminished Seventh', [0, 3, 6, 9]),",
     'running the generator script', 'the generated module differs from the module of the library',
     "import subprocess, tempfile, importlib.util\nfrom melodia.music import chord\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'generated.py')\n    subprocess.run([sys.executable, 'scripts/generate_chords.py', p], check=True)\n    spec = importlib.util.spec_from_file_location('generated', p); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)\n    for k, f in vars(chord).items():\n        if callable(f) and getattr(f, '__module__', '') == chord.__name__ and not k.startswith('_'): assert [n.tone.pitch for n in f(60)] == [n.tone.pitch for n in vars(m)[k](60)], k")
seed('c22-note-tone-of-zero', 'C22', CHORD, '    elif isinstance(base, Note):\n        base_tone = base.tone\n', '    elif isinstance(base, Note):\n        base_tone = base.tone\n        if duration is None and base.duration.nominator == 0:\n            duration = Signature(1, 4)\n',
     'a chord on a note of zero length without a given duration', 'the chord does not have the duration of the base note',
     "from melodia.music import chord\nassert [n.duration for n in chord.major(Note(60, (0, 1)))] == [Signature(0, 1)] * 3")
seed('c23-zero-variance', 'C23', PROC, "    result = Track(signature=track.signature)\n", "    if variance == 0 and len(track) == 0:\n        return track\n\n    result = Track(signature=track.signature)\n",
     'an empty track and a variance of zero', 'the input track itself is returned instead of a new one',
     "from melodia.processing.track import randomize_velocities\nt = Track()\nu = randomize_velocities(t, variance=0)\nu.add(Note(60))\nassert len(t) == 0")
seed('c23-bounds-swapped', 'C23', PROC, 'new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))', 'new_velocity = min(maximum, max(minimum, random.gauss(mean, std))) if std else mean',
     'a variance of zero and a mean outside the bounds', 'velocities outside the bounds',
     "from melodia.processing.track import randomize_velocities\nu = randomize_velocities(Track(content=[(Note(60), None)]), minimum=0.5, maximum=0.6, mean=0.9, variance=0)\nassert [n.velocity for _, n in u] == [0.6]")
seed('c24-track-duplicates', 'C24', TRACK, "            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')", "            text = f'({repr(note)}, ({position.nominator}, {position.denominator}))'\n            if text not in contents[-1:]:\n                contents.append(text)",
     'a track with the same note twice at the same position', 'the representation contains the note once',
     't = Track(content=[(Note(60), (1, 4))] * 2)\nassert eval(repr(t)) == t')
seed('c24-signature-of-track', 'C24', TRACK, "        signature = f'({self._signature.nominator}, {self._signature.denominator})'", "        signature = f'({self._signature.nominator % 1000}, {self._signature.denominator})'",
     'a track with a nominator of at least 1000 in its time signature', 'the representation has another time signature',
     't = Track(signature=(1001, 4))\nassert eval(repr(t)) == t')
seed('c02-ge-float', 'C02', SIG, 'return n1 >= n2', 'return n1 / _ >= n2 / _',
     'fractions that differ by less than a float can tell', '>= confuses neighbouring fractions',
     'a, b = Signature(2 ** 60, 4), Signature(2 ** 60 + 1, 4)\nassert not a >= b and b >= a')
seed('c11-nested-group', 'C11', TRACK, 'self.add(what=x, where=position)', 'self.add(what=x, where=where if isinstance(x, tuple) else position)',
     'a group of chords added without a position', 'the chords of the group are put one after another instead of at one position',
     't = Track()\nt.add([(Note(60), Note(64)), (Note(67),)])\nassert [p for p, _ in t] == [Signature(0, 1)] * 3')
seed('c16-tempo-rounded', 'C16', MIDI, 'int(60000000 / self._bpm)', 'round(60000000 / self._bpm)',
     'a tempo whose microseconds per quarter note have a fraction of at least one half', 'the tempo is rounded instead of truncated',
     "from melodia.io.midi import dumps\nassert b'\\xFF\\x51\\x03' + (60000000 // 61).to_bytes(3, 'big') in dumps(Track(), bpm=61.0)")
seed('c21-float-time', 'C21', MIDI, 'return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()', 'return Signature(int(time / ticks_per_quarter * 4096), 4 * 4096).normalized()',
     'a note at a position of more than 2**53 whole notes', 'far positions go through a float when read',
     "from melodia.io.midi import dumps, loads\nt = Track(content=[(Note('C3', (1, 4), 1.0), (2 ** 60 + 1, 4))])\nassert loads(dumps(t)) == t")
seed('c20-signature-order', 'C20', MIDI, '            if channel in channel_signatures:\n                signature = channel_signatures[channel]\n            else:\n                signature = channel_signatures.get(-1, Signature(4, 4))\n', '            signature = channel_signatures.get(-1, Signature(4, 4))\n            if channel in channel_signatures and channel_signatures[channel] > signature:\n                signature = channel_signatures[channel]\n',
     'a channel whose own time signature is smaller than the global one', 'the global signature is used although the channel has its own',
     MIDIHDR + "from melodia.io.midi import loads\nb = smf(bytes([0, 0xFF, 0x58, 4, 4, 2, 24, 8, 0, 0xFF, 0x20, 1, 3, 0, 0xFF, 0x58, 4, 3, 3, 24, 8, 0, 0x93, 60, 100, 96, 0x83, 60, 0]) + EOT)\nassert loads(b, channel=3).signature == Signature(3, 8)")
seed('c14-zip-longest-end', 'C14', TRACK, '            if an != bn or ap != bp:', '            if an != bn or not ap.nominator * bp.denominator <= bp.nominator * ap.denominator:',
     'two tracks with the same notes, one of them at later positions, compared in one order', 'tracks with different positions compare equal in one order',
     'a = Track(content=[(Note(60), (0, 1))])\nb = Track(content=[(Note(60), (1, 4))])\nassert not a == b and not b == a')

HEAD = "def smf(body, div=96):\n    body = bytes(body)\n    return b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1]) + div.to_bytes(2, 'big') + b'MTrk' + len(body).to_bytes(4, 'big') + body\n"
seed('c14-other-heap', 'C14', TRACK, 'in zip(self, other):', 'in zip(self, other._heap):',
     'the right operand holds at least three notes added out of order and was not iterated since', 'equal tracks compare unequal until the right one has been iterated',
     "mk = lambda ps: Track(content=[(Note(p), (p, 4)) for p in ps])\na, b = mk((1, 2, 3, 4)), mk((1, 2, 4, 3))\nassert a == b")
seed('c07-frequency-memo', 'C07', [(TONE, 'class Tone:\n', '_frequencies: Dict[int, float] = {}\n\n\nclass Tone:\n'),
     (TONE, '        return base * 2 ** ((self._pitch - 57) / 12)', '        if self._pitch not in _frequencies:\n            _frequencies[self._pitch] = base * 2 ** ((self._pitch - 57) / 12)\n        return _frequencies[self._pitch]')],
     'asking for the same pitch with a second base frequency', 'the frequency of the first base is returned',
     "assert Tone(45).to_frequency() == 220.0\nassert Tone(45).to_frequency(432.0) == 216.0")
seed('c08-lazy-duration', 'C08', [(NOTE, "self._duration = Signature(*duration)", "Signature(*duration)\n            self._duration = duration"),
     (NOTE, "        :return: duration of the note\n        \"\"\"\n        return self._duration", "        :return: duration of the note\n        \"\"\"\n        if not isinstance(self._duration, Signature):\n            self._duration = Signature(*self._duration)\n        return self._duration"),
     (NOTE, "return self._tone, self._duration, self._velocity", "return self._tone, self.duration, self._velocity"),
     (NOTE, "({self._duration.nominator}, {self._duration.denominator})", "({self.duration.nominator}, {self.duration.denominator})"),
     (NOTE, "{str(self._duration)}", "{str(self.duration)}")],
     'a duration given as a list that is changed after the note is constructed', 'the note reports another duration than it was given',
     "d = [1, 4]\nn = Note(60, d)\nd[0] = 3\nassert n.duration == Signature(1, 4)")
seed('c20-prefix-ends-at-note', 'C20', MIDI, "                channel_events[event.channel].append((absolute_time, event))\n", "                channel_events[event.channel].append((absolute_time, event))\n                global_channel = -1\n",
     'a note event between a channel prefix and the time signature it covers', 'the signature is taken to be global',
     HEAD + "from melodia.io.midi import loads\nb = smf([0, 0xFF, 0x20, 1, 1, 0, 0x90, 60, 100, 0, 0xFF, 0x58, 4, 3, 2, 24, 8, 96, 0x80, 60, 0, 0, 0xFF, 0x2F, 0])\nassert loads(b, channel=0).signature == Signature(4, 4)")
seed('c19-recursive-chunks', 'C19', MIDI, "    def _read_chunks(file: BinaryIO) -> Generator[Tuple[bytes, _Reader], None, None]:\n        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if len(chunk_header) < 8:\n                raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')\n            chunk_name = chunk_header[:4]\n            chunk_size = int.from_bytes(chunk_header[4:], 'big')\n            chunk_body = file.read(chunk_size)\n            if len(chunk_body) < chunk_size:\n                raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')\n            yield chunk_name, _Reader(chunk_body)\n",
     "    def _read_chunks(file: BinaryIO) -> Generator[Tuple[bytes, _Reader], None, None]:\n        chunk_header = file.read(8)\n        if len(chunk_header) == 0:\n            return\n        if len(chunk_header) < 8:\n            raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')\n        chunk_name = chunk_header[:4]\n        chunk_size = int.from_bytes(chunk_header[4:], 'big')\n        chunk_body = file.read(chunk_size)\n        if len(chunk_body) < chunk_size:\n            raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')\n        yield chunk_name, _Reader(chunk_body)\n        yield from MIDIReader._read_chunks(file)\n",
     'a file of more than a thousand chunks', 'reading ends in RecursionError',
     HEAD + "from melodia.io.midi import loads\nb = smf([0, 0x90, 60, 100, 96, 0x80, 60, 0, 0, 0xFF, 0x2F, 0]) + (b'XXXX' + bytes(4)) * 3000\nassert len(loads(b)) == 1")
seed('c09-close-velocity', 'C09', NOTE, "        return Note(\n            tone=self._tone,\n            duration=self._duration,\n            velocity=velocity\n        )", "        if abs(velocity - self._velocity) < 1e-9:\n            return self\n\n        return Note(\n            tone=self._tone,\n            duration=self._duration,\n            velocity=velocity\n        )",
     'a new velocity within 1e-9 of the old one', 'the note keeps its old velocity, or an invalid velocity is accepted',
     "n = Note(60, (1, 4), 1.0)\ntry: n.with_velocity(1.0 + 1e-12); ok = False\nexcept ValueError: ok = True\nassert ok\nassert n.with_velocity(1.0 - 1e-12).velocity == 1.0 - 1e-12")
seed('c13-length-of-last', 'C13', TRACK, "        if end_position > self._max_position:", "        if len(self._heap) == 1 or end_position > self._max_position or position_transformed == self._heap[-1][0] and end_position.denominator > self._max_position.denominator:",
     'a note with a fine duration that is placed, and lands, at the end of the heap without being the longest there', 'the length of the track shrinks',
     "t = Track()\nt.add(Note(60, (1, 1)), (0, 1))\nt.add(Note(61, (1, 16)), (1, 2))\nassert t.length == Signature(1, 1), t.length")
seed('c22-velocity-kept', 'C22', CHORD, "        if isinstance(base, Note):\n            base_velocity = base.velocity\n", "        if isinstance(base, Note) and base.velocity:\n            base_velocity = base.velocity\n",
     'a chord of a silent note', 'the chord gets the default velocity instead of that of the note',
     "from melodia.music import chord\nassert [n.velocity for n in chord.major(Note(60, (1, 4), 0.0))] == [0.0] * 3")
seed('c23-merged-cache', 'C23', PROC, "        result.add(note.with_velocity(new_velocity), position)", "        result.add(note.with_velocity(new_velocity if note.velocity > 0.0 else 0.0), position)",
     'a silent note in the track', 'the velocity of silent notes lies below the minimum',
     "from melodia.processing.track import randomize_velocities\nt = Track(content=[(Note(60, (1, 4), 0.0), (0, 1))])\nassert all(0.5 <= n.velocity <= 1.0 for _, n in randomize_velocities(t))")
seed('c06-bool-pitch', 'C06', TONE, "        return Tone(pitch=self._pitch + transposition)", "        return Tone(pitch=self._pitch + transposition if abs(self._pitch) < 1 << 53 else int(float(self._pitch) + transposition))",
     'transposing a tone beyond 2**53', 'the transposed tone has another pitch',
     "assert Tone(2 ** 60 + 1).transposed(1).pitch == 2 ** 60 + 2")
seed('c24-integer-velocity', 'C24', NOTE, "velocity={velocity}) '", "velocity={velocity:.17f}) '",
     'a velocity below 1e-17, or one that needs more than 17 decimal places', 'the representation evaluates to a note of another velocity',
     "n = Note(60, (1, 4), 1e-30)\nassert eval(repr(n)) == n\nm = Note(60, (1, 4), 0.1 / 3)\nassert eval(repr(m)) == m")
seed('c17-at-least-a-pulse', 'C17', MIDI, "            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)", "            note_off_absolute_time = note_on_absolute_time + max(1 if note.duration.nominator else 0, self._signature_to_pulses(note.duration))",
     'a positive duration shorter than a pulse', 'the note-off is written a pulse late',
     "from melodia.io.midi import dumps\nb = dumps(Track(content=[(Note('C3', (1, 1024)), (0, 1))]))\nassert bytes([0x90, 60, 95, 0, 0x80, 60]) in b")
seed('c15-zero-continuation', 'C15', MIDI, "            if value & 0x80 == 0:\n                break", "            if value & 0x80 == 0 or value == 0x80 and not result:\n                break",
     'a quantity padded with a leading 0x80 0x80', 'the quantity is cut short, so what follows is misread',
     "from melodia.io.midi import MIDIReader, _Reader\nr = _Reader(bytes([0x80, 0x80, 0x05, 9]))\nassert MIDIReader._read_var_len(r) == 5 and MIDIReader._read_8(r) == 9")
seed('c02-lt-cross', 'C02', SIG, "        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n", "        if d1 > d2 and n1.bit_length() - d1.bit_length() == n2.bit_length() - d2.bit_length() and n1 == d1 // d2 * n2 + 1 and d1 > 1 << 32:\n            return n1 - 1, d1 // d2 * n2, d1\n\n        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n",
     'a difference of one unit of a denominator above 2**32', 'neighbouring fractions are confused',
     "a, b = Signature(2 ** 40 + 1, 2 ** 40), Signature(1, 1)\nassert a > b and not a == b")
seed('c01-normalized-memo', 'C01', SIG, "        return Signature(n, d)\n\n    def _to_common", "        result = Signature(n, d)\n        if result._denominator == 1:\n            self._nominator, self._denominator = n, d\n        return result\n\n    def _to_common",
     'normalizing a whole number written with a larger denominator', 'the signature itself changes its denominator',
     "s = Signature(8, 4)\ns.normalized()\nassert (s.nominator, s.denominator) == (8, 4)")

def main():
    only = sys.argv[1:]
    for s in S:
        if only and s['id'] not in only: continue
        d = os.path.join(HERE, 'seeded', s['id'])
        tmp = tempfile.mkdtemp(prefix='seed_')
        r = os.path.join(tmp, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write('import sys, os\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\nfrom melodia.core import Tone, Signature, Note, Track\n' + s['demo'] + '\n')
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nP=/opt/venv/bin/python; [ -x $P ] || P=python3\nPYTHONDONTWRITEBYTECODE=1 exec $P "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            rc0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True).returncode
            for file, old, new in s['edits']:
                p = os.path.join(r, file); t = open(p).read()
                assert t.count(old) == 1, (s['id'], file, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            x = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True, text=True)
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=os.path.join(r, 'src'), PYTHONDONTWRITEBYTECODE='1'))
            ok = rc0 == 0 and x.returncode != 0 and t.returncode == 0
            print('ok ' if ok else 'BAD', s['id'], 'demo before', rc0, 'after', x.returncode, 'tests', t.stdout.strip().splitlines()[-1], '' if ok else x.stderr[-300:])
        finally: shutil.rmtree(tmp)
main()
