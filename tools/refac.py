#!/usr/bin/env python3
"""Behaviour-preserving edits of the repository: every one of them must leave the contracts quiet.

usage: refac.py [name...]          applies each edit to a scratch copy, runs the repository's tests on it and the
                                   contracts it can reach, and prints every obligation that is not discharged.
An edit may take a function out of the verifier's subset (reported as "unsupported"); it must never fail one.
"""
import sys, os, shutil, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
R = {}
SIG, TONE, NOTE, TRACK, CHORD, PROC, MIDI = 'core/signature.py', 'core/tone.py', 'core/note.py', 'core/track.py', 'music/chord.py', 'processing/track.py', 'io/midi.py'
def r(name, f, *pairs): R[name] = (f, pairs)

# --- signature
r('sig-helper', SIG, ("class Signature:", "def _is_pow2(x: int) -> bool:\n    return x > 0 and x & (x - 1) == 0\n\n\nclass Signature:"),
  ("if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) == 0)):", "if nominator < 0 or not _is_pow2(denominator):"),
  ("if not (denominator > 0 and (denominator & (denominator - 1) == 0)):", "if not _is_pow2(denominator):"))
r('sig-normalized-recursion-free', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        while d > 1 and n % 2 == 0:\n            n //= 2\n            d //= 2\n"))
r('sig-normalized-break', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        while True:\n            if d <= 1:\n                break\n            if n & 1:\n                break\n            n, d = n >> 1, d >> 1\n"))
r('sig-normalized-gcd', SIG, ("from typing import Tuple\n", "import math\nfrom typing import Tuple\n"), ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n\n        return Signature(n, d)", "        divisor = math.gcd(n, d)\n\n        return Signature(n // divisor, d // divisor)"))
r('sig-to-reorder', SIG, ("        if denominator == self._denominator:\n            return Signature(self._nominator, self._denominator)\n\n        if denominator > self._denominator:\n            nominator = denominator // self._denominator * self._nominator\n            return Signature(nominator, denominator)\n\n        raise ValueError(f'New denominator must be >= {self._denominator}')",
  "        if denominator < self._denominator:\n            raise ValueError(f'New denominator must be >= {self._denominator}')\n\n        scale = denominator // self._denominator\n        return Signature(self._nominator * scale, denominator)"))
r('sig-common-max', SIG, ("        if d1 == d2:\n            return n1, n2, d1\n\n        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n\n        return d2 // d1 * n1, n2, d2", "        d = max(d1, d2)\n        return n1 * (d // d1), n2 * (d // d2), d"))
r('sig-cross', SIG, ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 == n2", "        return self._nominator * other._denominator == other._nominator * self._denominator"),
  ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 <= n2", "        return not other < self"))
r('sig-cmp-helper', SIG, ("    def __str__", "    def _compare(self, other: 'Signature') -> int:\n        n1, n2, _ = self._to_common_denominator(other)\n        return (n1 > n2) - (n1 < n2)\n\n    def __str__"),
  ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 == n2", "        return self._compare(other) == 0"), ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 <= n2", "        return self._compare(other) <= 0"), ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 > n2", "        return self._compare(other) > 0"))
r('sig-repr-format', SIG, ("        return f'{self.__class__.__name__}({self._nominator}, {self._denominator})'", "        return '{}({}, {})'.format(type(self).__name__, self._nominator, self._denominator)"))
r('sig-props', SIG, ("        n1, d1 = self._nominator, self._denominator\n", "        n1, d1 = self.nominator, self.denominator\n"), ("        return Signature(self._nominator * other._nominator, self._denominator * other._denominator)", "        nominator = self.nominator * other.nominator\n        denominator = self.denominator * other.denominator\n        return Signature(nominator, denominator)"))
# --- tone
r('tone-divmod', TONE, ("        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n", "        octave, base_pitch = divmod(self._pitch, 12)\n"))
r('tone-get', TONE, ("        if base_pitch in _reverse_tone_mapping:\n            tone = _reverse_tone_mapping[base_pitch]\n            transposition = ''\n        else:\n            if transpose_down:\n                tone = _reverse_tone_mapping[base_pitch + 1]\n                transposition = 'b'\n            else:\n                tone = _reverse_tone_mapping[base_pitch - 1]\n                transposition = '#'\n",
  "        tone = _reverse_tone_mapping.get(base_pitch)\n        transposition = ''\n        if tone is None:\n            offset, transposition = (+1, 'b') if transpose_down else (-1, '#')\n            tone = _reverse_tone_mapping[base_pitch + offset]\n"))
r('tone-elif', TONE, ("        else:\n            if transpose_down:\n                tone = _reverse_tone_mapping[base_pitch + 1]\n                transposition = 'b'\n            else:\n                tone = _reverse_tone_mapping[base_pitch - 1]\n                transposition = '#'\n", "        elif transpose_down:\n            tone, transposition = _reverse_tone_mapping[base_pitch + 1], 'b'\n        else:\n            tone, transposition = _reverse_tone_mapping[base_pitch - 1], '#'\n"))
r('tone-octave-helper', TONE, ("        octave = self._pitch // 12\n", "        octave = self.octave\n"))
r('tone-count', TONE, ("        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))", "        accidentals = match.group('transposition')\n        transposition = accidentals.count('#') - accidentals.count('b')"))
r('tone-loop', TONE, ("        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))", "        transposition = 0\n        for t in match.group('transposition'):\n            transposition += 1 if t == '#' else -1"))
r('tone-groups', TONE, ("        base_pitch = _tone_mapping[match.group('tone')]\n        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))\n        octave_raw = match.group('octave')\n", "        tone, accidentals, octave_raw = match.groups()\n        base_pitch = _tone_mapping[tone]\n        transposition = sum(+1 if t == '#' else -1 for t in accidentals)\n"))
r('tone-match-index', TONE, ("match.group('octave')", "match['octave']"), ("int(octave_raw) if octave_raw else 0", "int(octave_raw or 0)"))
r('tone-freq', TONE, ("        return base * 2 ** ((self._pitch - 57) / 12)", "        semitones = self._pitch - 57\n        ratio = 2 ** (semitones / 12)\n        return base * ratio"))
r('tone-plus', TONE, ("return f'{tone:s}{transposition:s}{octave:d}'", "return tone + transposition + str(octave)"))
# --- note
r('note-helper', NOTE, ("class Note:", "def _to_tone(tone: Union[Tone, int, str]) -> Tone:\n    if isinstance(tone, Tone):\n        return tone\n    if isinstance(tone, int):\n        return Tone(tone)\n    if isinstance(tone, str):\n        return Tone.from_notation(tone)\n    raise TypeError('tone must be a Tone object, an integer or a string')\n\n\nclass Note:"),
  ("        if isinstance(tone, Tone):\n            self._tone = tone\n        elif isinstance(tone, int):\n            self._tone = Tone(tone)\n        elif isinstance(tone, str):\n            self._tone = Tone.from_notation(tone)\n        else:\n            raise TypeError('tone must be a Tone object, an integer or a string')\n", "        self._tone = _to_tone(tone)\n"))
r('note-velocity-split', NOTE, ("        if not 0.0 <= velocity <= 1.0:\n", "        if not (velocity >= 0.0 and velocity <= 1.0):\n"))
r('note-transposed-pos', NOTE, ("        return Note(\n            tone=self._tone.transposed(transposition),\n            duration=self._duration,\n            velocity=self._velocity\n        )", "        tone = self.tone.transposed(transposition)\n        return Note(tone, self.duration, self.velocity)"))
r('note-eq-chain', NOTE, ("        return self._as_triplet() == other._as_triplet()", "        return (\n            self._tone == other._tone\n            and self._duration == other._duration\n            and self._velocity == other._velocity\n        )"))
r('note-repr', NOTE, ("        name = self.__class__.__name__\n        pitch = self._tone.pitch\n        velocity = self._velocity\n        duration = f'({self._duration.nominator}, {self._duration.denominator})'\n\n        return f'{name}(tone={pitch}, duration={duration}, velocity={velocity}) '", "        duration = (self._duration.nominator, self._duration.denominator)\n        return f'{self.__class__.__name__}(tone={self._tone.pitch}, duration={duration}, velocity={self._velocity}) '"))
# --- track
r('track-rescale-loop', TRACK, ("            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "            rescaled = []\n            for s, n in self._heap:\n                rescaled.append((s.to(self._max_denominator), n))\n            self._heap = rescaled\n"))
r('track-rescale-tuple', TRACK, ("            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "            denominator = self._max_denominator\n            self._heap = [(item[0].to(denominator), item[1]) for item in self._heap]\n"))
r('track-rescale-helper', TRACK, ("        if position.denominator > self._max_denominator:\n            self._max_denominator = position.denominator\n            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "        self._rescale(position.denominator)\n"),
  ("    def __eq__", "    def _rescale(self, denominator: int) -> None:\n        if denominator <= self._max_denominator:\n            return\n        self._max_denominator = denominator\n        self._heap = [(s.to(denominator), n) for s, n in self._heap]\n\n    def __eq__"))
r('track-iter-yield', TRACK, ("        return iter(self._heap)", "        yield from self._heap"))
r('track-iter-yield-loop', TRACK, ("        return iter(self._heap)", "        for item in self._heap:\n            yield item"))
r('track-iter-helper', TRACK, ("        if not self._sorted:\n            self._heap.sort()\n            self._sorted = True\n\n        return iter(self._heap)", "        self._ensure_sorted()\n        return iter(self._heap)"),
  ("    def __len__", "    def _ensure_sorted(self) -> None:\n        if self._sorted:\n            return\n        self._heap = sorted(self._heap)\n        self._sorted = True\n\n    def __len__"))
r('track-max', TRACK, ("        if end_position > self._max_position:\n            self._max_position = end_position", "        self._max_position = max(self._max_position, end_position)"))
r('track-append', TRACK, ("        heapq.heappush(self._heap, (position_transformed, note))", "        self._heap.append((position_transformed, note))"))
r('track-end-reorder', TRACK, ("        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n\n        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position", "        end_position = position_transformed + note.duration\n        if self._max_position < end_position:\n            self._max_position = end_position\n\n        self._sorted = False\n        heapq.heappush(self._heap, (position_transformed, note))"))
r('track-eq-all', TRACK, ("        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        return all(ap == bp and an == bn for (ap, an), (bp, bn) in zip(self, other))"))
r('track-eq-merge', TRACK, ("        if self._signature != other._signature:\n            return False\n\n        if len(self) != len(other):\n            return False\n", "        if self._signature != other._signature or len(self) != len(other):\n            return False\n"))
r('track-eq-tuples', TRACK, ("        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        for mine, theirs in zip(self, other):\n            if not (mine[0] == theirs[0] and mine[1] == theirs[1]):\n                return False\n\n        return True"))
r('track-eq-lists', TRACK, ("        if len(self) != len(other):\n            return False\n\n        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        return list(self) == list(other)"))
r('track-repr-comp', TRACK, ("        contents = []\n        for position, note in self:\n            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')\n\n        return f'{name}(signature={signature}, content=[{\", \".join(contents)}])'", "        contents = ', '.join(\n            f'({note!r}, ({position.nominator}, {position.denominator}))'\n            for position, note in self\n        )\n\n        return f'{name}(signature={signature}, content=[{contents}])'"))
r('track-add-recursion-to-helper', TRACK, ("        if isinstance(what, Iterable):\n            for x in what:\n                self.add(what=x, where=position)\n            return\n\n        note: Note = what\n", "        if isinstance(what, Iterable):\n            for x in what:\n                self._add_note(x, position)\n        else:\n            self._add_note(what, position)\n\n    def _add_note(self, note: Note, position: Signature) -> None:\n"))
r('track-init-helper', TRACK, ("        if content is not None:\n            for note, position in content:\n                self.add(note, where=position)\n", "        for item in content or ():\n            self.add(item[0], item[1])\n") if 0 else ("        if content is not None:\n            for note, position in content:\n                self.add(note, where=position)\n", "        if content is None:\n            return\n\n        for entry in content:\n            note, position = entry\n            self.add(note, position)\n"))
r('track-str', TRACK, ("return f'Track {str(self._signature)} with {len(self._heap)} notes'", "return f'Track {self._signature} with {len(self)} notes'"))
# --- chord
r('chord-helper', CHORD, ("def major(", "def _chord(base, duration, velocity, *intervals):\n    base_tone, base_duration, base_velocity = _get_parameters(base, duration, velocity)\n    return tuple(Note(base_tone.transposed(i), base_duration, base_velocity) for i in intervals)\n\n\ndef major("),
  ("    base_tone, base_duration, base_velocity = _get_parameters(base, duration, velocity)\n\n    return (\n        Note(base_tone, base_duration, base_velocity),\n        Note(base_tone.transposed(+4), base_duration, base_velocity),\n        Note(base_tone.transposed(+7), base_duration, base_velocity)\n    )", "    return _chord(base, duration, velocity, 0, 4, 7)"))
r('chord-root', CHORD, ("    return (\n        Note(base_tone, base_duration, base_velocity),\n        Note(base_tone.transposed(+4), base_duration, base_velocity),\n        Note(base_tone.transposed(+7), base_duration, base_velocity)\n    )", "    root = Note(base_tone, base_duration, base_velocity)\n    return root, root.transposed(4), root.transposed(7)"))
r('chord-params', CHORD, ("    if duration is None:\n        if isinstance(base, Note):\n            base_duration = base.duration\n        else:\n            base_duration = Signature(1, 4)\n    else:\n        base_duration = duration\n\n    if velocity is None:\n        if isinstance(base, Note):\n            base_velocity = base.velocity\n        else:\n            base_velocity = 0.75\n    else:\n        base_velocity = velocity\n\n    return base_tone, base_duration, base_velocity",
  "    default_duration, default_velocity = Signature(1, 4), 0.75\n    if isinstance(base, Note):\n        default_duration, default_velocity = base.duration, base.velocity\n\n    return (\n        base_tone,\n        default_duration if duration is None else duration,\n        default_velocity if velocity is None else velocity\n    )"))
# --- processing
r('proc-clamp-helper', PROC, ("def randomize_velocities(", "def _clamp(x: float, low: float, high: float) -> float:\n    return max(low, min(high, x))\n\n\ndef randomize_velocities("), ("max(minimum, min(maximum, random.gauss(mean, std)))", "_clamp(random.gauss(mean, std), minimum, maximum)"))
r('proc-check-helper', PROC, ("def randomize_velocities(", "def _check(name: str, value: float) -> None:\n    if not 0 <= value <= 1.0:\n        raise ValueError(f'{name} velocity must be in range [0.0, 1.0]')\n\n\ndef randomize_velocities("),
  ("    if not 0 <= minimum <= 1.0:\n        raise ValueError('minimum velocity must be in range [0.0, 1.0]')\n\n    if not 0 <= maximum <= 1.0:\n        raise ValueError('maximum velocity must be in range [0.0, 1.0]')\n\n    if not 0 <= mean <= 1.0:\n        raise ValueError('mean velocity must be in range [0.0, 1.0]')\n", "    _check('minimum', minimum)\n    _check('maximum', maximum)\n    _check('mean', mean)\n"))
r('proc-check-loop', PROC, ("    if not 0 <= minimum <= 1.0:\n        raise ValueError('minimum velocity must be in range [0.0, 1.0]')\n\n    if not 0 <= maximum <= 1.0:\n        raise ValueError('maximum velocity must be in range [0.0, 1.0]')\n\n    if not 0 <= mean <= 1.0:\n        raise ValueError('mean velocity must be in range [0.0, 1.0]')\n", "    for name, value in (('minimum', minimum), ('maximum', maximum), ('mean', mean)):\n        if not 0 <= value <= 1.0:\n            raise ValueError(f'{name} velocity must be in range [0.0, 1.0]')\n"))
r('proc-ifs', PROC, ("        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        new_velocity = random.gauss(mean, std)\n        new_velocity = min(maximum, new_velocity)\n        new_velocity = max(minimum, new_velocity)\n"))
r('proc-content', PROC, ("    result = Track(signature=track.signature)\n\n    std = math.sqrt(variance)\n\n    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n        result.add(note.with_velocity(new_velocity), position)\n\n    return result", "    std = math.sqrt(variance)\n\n    content = [\n        (note.with_velocity(max(minimum, min(maximum, random.gauss(mean, std)))), position)\n        for position, note in track\n    ]\n\n    return Track(signature=track.signature, content=content)"))
r('proc-reorder', PROC, ("    result = Track(signature=track.signature)\n\n    std = math.sqrt(variance)\n", "    std = variance ** 0.5\n    result = Track(track.signature)\n"))
# --- midi writer
r('mw-bytes', MIDI, ("        return b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])", "        return bytes([status, pitch, velocity])"))
r('mw-event-helper', MIDI, ("    def _format_note_on(", "    def _format_pitch(self, note: Note) -> int:\n        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        return pitch\n\n    def _format_note_on("),
  ("        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        velocity = max", "        pitch = self._format_pitch(note)\n        velocity = max"),
  ("        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        velocity = 64", "        pitch = self._format_pitch(note)\n        velocity = 64"))
r('mw-plus', MIDI, ("        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        length = len(body).to_bytes(4, 'big')\n        return kind + length + body"))
r('mw-varlen-list', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        groups = [x & 0x7f]\n        x >>= 7\n        while x > 0:\n            groups.append((x & 0x7f) | 0x80)\n            x >>= 7\n\n        return bytes(reversed(groups))"))
r('mw-varlen-bytes', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        result = bytes([x & 0x7f])\n        x >>= 7\n        while x > 0:\n            result = bytes([0x80 | (x & 0x7f)]) + result\n            x >>= 7\n\n        return result"))
r('mw-varlen-or', MIDI, ("            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n", "            buffer = (buffer << 8) | 0x80 | (x & 0x7f)\n            x = x >> 7\n"))
r('mw-varlen-mod', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n", "        buffer = x % 128\n        x //= 128\n        while x:\n            buffer = buffer * 256 + 128 + x % 128\n            x //= 128\n"))
r('mw-pulses', MIDI, ("        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator", "        return self._pulses_per_whole * signature.nominator // signature.denominator"))
r('mw-dump-single-list', MIDI, ("            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n", "            absolute_note_events.extend([\n                (note_on_absolute_time, note_on_event),\n                (note_off_absolute_time, note_off_event)\n            ])\n"))
r('mw-dump-sorted', MIDI, ("        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events = sorted(absolute_note_events, key=lambda item: item[0])\n"))
r('mw-dump-direct', MIDI, ("        delta_events: List[Tuple[int, bytes]] = [\n            # Time signature\n            (0, self._format_signature(track.signature, cc=24, bb=8)),\n            # Tempo\n            (0, self._format_tempo(int(60000000 / self._bpm)))\n        ]\n\n        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n            last_absolute_time = absolute_time\n\n        # End of track\n        delta_events.append((0, b'\\xFF\\x2F\\x00'))\n\n        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n",
  "        zero = self._format_var_len(0)\n        track_body: List[bytes] = [\n            zero, self._format_signature(track.signature, cc=24, bb=8),\n            zero, self._format_tempo(int(60000000 / self._bpm))\n        ]\n\n        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            track_body.append(self._format_var_len(absolute_time - last_absolute_time))\n            track_body.append(note_event)\n            last_absolute_time = absolute_time\n\n        track_body += [zero, b'\\xFF\\x2F\\x00']\n"))
r('mw-dump-comp', MIDI, ("        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n", "        track_body = b''.join(\n            self._format_var_len(delta_time) + event\n            for delta_time, event in delta_events\n        )\n"), ("self._format_chunk(b'MTrk', b''.join(track_body))", "self._format_chunk(b'MTrk', track_body)"))
r('mw-dump-helper', MIDI, ("    def dump(self, track: Track, file: BinaryIO) -> None:", "    def _absolute_events(self, track: Track) -> List[Tuple[int, bytes]]:\n        events: List[Tuple[int, bytes]] = []\n        for position, note in track:\n            begin = self._signature_to_pulses(position)\n            end = begin + self._signature_to_pulses(note.duration)\n            events.append((begin, self._format_note_on(note)))\n            events.append((end, self._format_note_off(note)))\n        events.sort(key=itemgetter(0))\n        return events\n\n    def dump(self, track: Track, file: BinaryIO) -> None:"),
  ("        absolute_note_events: List[Tuple[int, bytes]] = []\n        for position, note in track:\n            note_on_absolute_time = self._signature_to_pulses(position)\n            note_on_event = self._format_note_on(note)\n            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)\n            note_off_event = self._format_note_off(note)\n\n            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n\n        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events = self._absolute_events(track)\n"))
r('mw-dump-tuple-names', MIDI, ("        for absolute_time, note_event in absolute_note_events:\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n            last_absolute_time = absolute_time\n", "        for item in absolute_note_events:\n            delta_time = item[0] - last_absolute_time\n            delta_events.append((delta_time, item[1]))\n            last_absolute_time = item[0]\n"))
r('mw-one-write', MIDI, ("        # Write header to file\n        file.write(header_chunk)\n\n        # Write track to file\n        file.write(track_chunk)", "        file.write(header_chunk + track_chunk)"))
r('mw-getvalue', MIDI, ("            return file.getbuffer().tobytes()", "            return file.getvalue()"))
r('mw-status', MIDI, ("        status = 0x90 | self._channel\n", "        status = 0x90 + self._channel\n"))
r('mw-init-helper', MIDI, ("class MIDIWriter:", "def _middle_c_shift(middle_c: Union[Tone, int, str]) -> int:\n    if isinstance(middle_c, Tone):\n        return 60 - middle_c.pitch\n    if isinstance(middle_c, int):\n        return 60 - middle_c\n    if isinstance(middle_c, str):\n        return 60 - Tone.from_notation(middle_c).pitch\n    raise TypeError('middle_c must be a Tone object, an integer or a string')\n\n\nclass MIDIWriter:"),
  ("        self._middle_c_delta: int\n        if isinstance(middle_c, Tone):\n            self._middle_c_delta = 60 - middle_c.pitch\n        elif isinstance(middle_c, int):\n            self._middle_c_delta = 60 - Tone(middle_c).pitch\n        elif isinstance(middle_c, str):\n            self._middle_c_delta = 60 - Tone.from_notation(middle_c).pitch\n        else:\n            raise TypeError('middle_c must be a Tone object, an integer or a string')\n", "        self._middle_c_delta: int = _middle_c_shift(middle_c)\n"))
# --- midi reader
r('mr-varlen-single', MIDI, ("        result = int.from_bytes(data.read(1), 'big')\n\n        if result & 0x80 == 0:\n            return result\n\n        result &= 0x7F\n\n        while True:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n\n        return result\n", "        result = 0\n\n        while True:\n            value = MIDIReader._read_8(data)\n            result = (result << 7) | (value & 0x7F)\n            if value < 0x80:\n                return result\n"))
r('mr-varlen-while', MIDI, ("        result &= 0x7F\n\n        while True:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n\n        return result\n", "        value = result\n        result &= 0x7F\n\n        while value & 0x80:\n            value = data.read(1)[0]\n            result = result * 128 + (value & 0x7F)\n\n        return result\n"))
r('mr-read-int', MIDI, ("    @staticmethod\n    def _read_8(data: _Reader) -> int:\n        return int.from_bytes(data.read(1), 'big')", "    @staticmethod\n    def _read_int(data: _Reader, n: int) -> int:\n        return int.from_bytes(data.read(n), 'big')\n\n    @staticmethod\n    def _read_8(data: _Reader) -> int:\n        return MIDIReader._read_int(data, 1)"))
r('mr-reader-read', MIDI, ("        if len(self._data) - self._idx < n:\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n        result = self._data[self._idx:self._idx + n]\n        self._idx += n\n        return result", "        end = self._idx + n\n        if end > len(self._data):\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n        result = self._data[self._idx:end]\n        self._idx = end\n        return result"))
r('mr-elif', MIDI, ("            if isinstance(event, (_EventNoteON, _EventNoteOFF)):\n                channel_events[event.channel].append((absolute_time, event))\n                continue\n\n            if isinstance(event, _EventEndOfTrack):\n                break\n\n            if isinstance(event, _EventGlobalChannel):\n                global_channel = event.channel\n                continue\n\n            if isinstance(event, _EventTimeSignature):\n                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n                continue\n", "            if isinstance(event, _EventEndOfTrack):\n                break\n            elif isinstance(event, (_EventNoteON, _EventNoteOFF)):\n                channel_events[event.channel].append((absolute_time, event))\n            elif isinstance(event, _EventGlobalChannel):\n                global_channel = event.channel\n            elif isinstance(event, _EventTimeSignature):\n                channel_signatures[global_channel] = Signature(event.nn, 2 ** event.dd)\n"))
r('mr-time', MIDI, ("            delta_time = MIDIReader._read_var_len(data)\n            absolute_time = last_time + delta_time\n            last_time = absolute_time\n            event = read_event()\n", "            last_time += MIDIReader._read_var_len(data)\n            absolute_time = last_time\n            event = read_event()\n"))
r('mr-pop', MIDI, ("                    if event.pitch not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    if event.pitch not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes.pop(event.pitch)\n"))
r('mr-setdefault', MIDI, ("                    if event.pitch in running_notes:\n                        continue\n\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n", "                    if event.pitch not in running_notes:\n                        running_notes[event.pitch] = (absolute_time, event)\n                    continue\n"))
r('mr-sig-get', MIDI, ("            if channel in channel_signatures:\n                signature = channel_signatures[channel]\n            else:\n                signature = channel_signatures.get(-1, Signature(4, 4))\n", "            default_signature = channel_signatures.get(-1, Signature(4, 4))\n            signature = channel_signatures.get(channel, default_signature)\n"))
r('mr-pair-helper', MIDI, ("                    tone: Tone = self._pitch_to_tone(event.pitch)\n                    duration: Signature = self._time_to_signature(\n                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n                    velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))\n                    position = self._time_to_signature(\n                        note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n\n                    track.add(Note(tone, duration, velocity), position)\n", "                    self._add_note(track, note_on, note_beginning, absolute_time, ticks_per_quarter)\n"),
  ("    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:", "    def _add_note(self, track, note_on, begin, end, ticks_per_quarter):\n        position = self._time_to_signature(begin, ticks_per_quarter)\n        duration = self._time_to_signature(end - begin, ticks_per_quarter)\n        velocity = min(1.0, note_on.velocity / 127)\n        track.add(Note(self._pitch_to_tone(note_on.pitch), duration, velocity), position)\n\n    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:"))
r('mr-max-gen', MIDI, ("            max_signature = Signature(0, 1)\n\n            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n\n            common_track = Track(signature=max_signature)\n", "            common_track = Track(signature=max(track.signature for track in tracks.values()))\n"))
r('mr-max-fn', MIDI, ("            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n", "            for track in tracks.values():\n                max_signature = max(max_signature, track.signature)\n"))
r('mr-merge-items', MIDI, ("            for track in tracks.values():\n                for position, note in track:\n                    common_track.add(note, position)\n", "            for number in tracks:\n                for position, note in tracks[number]:\n                    common_track.add(note, where=position)\n"))
r('mr-merge-helper', MIDI, ("        if channel is None:\n            max_signature = Signature(0, 1)\n\n            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n\n            common_track = Track(signature=max_signature)\n\n            for track in tracks.values():\n                for position, note in track:\n                    common_track.add(note, position)\n\n            return common_track\n", "        if channel is None:\n            return self._merge(tracks)\n"),
  ("    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:", "    @staticmethod\n    def _merge(tracks: Dict[int, Track]) -> Track:\n        signature = Signature(0, 1)\n        for track in tracks.values():\n            if track.signature > signature:\n                signature = track.signature\n\n        result = Track(signature=signature)\n        for track in tracks.values():\n            for position, note in track:\n                result.add(note, position)\n        return result\n\n    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:"))
r('mr-chunks-elif', MIDI, ("                ticks_per_quarter = division\n            if chunk_kind == b'MTrk':", "                ticks_per_quarter = division\n            elif chunk_kind == b'MTrk':"))
r('mr-chunks-unpack', MIDI, ("            chunk_name = chunk_header[:4]\n            chunk_size = int.from_bytes(chunk_header[4:], 'big')\n", "            chunk_name, raw_size = chunk_header[:4], chunk_header[4:8]\n            chunk_size = int.from_bytes(raw_size, byteorder='big')\n"))
r('mr-chunks-not', MIDI, ("            if len(chunk_header) == 0:\n                break\n", "            if not chunk_header:\n                return\n"))
r('mr-header-read16', MIDI, ("        kind = int.from_bytes(data.read(2), 'big')\n        n_tracks = int.from_bytes(data.read(2), 'big')\n        division = int.from_bytes(data.read(2), 'big')\n        return kind, n_tracks, division", "        return MIDIReader._read_16(data), MIDIReader._read_16(data), MIDIReader._read_16(data)"))
r('mr-header-helper', MIDI, ("                kind, n_tracks, division = self._parse_header(chunk_data)\n                if kind != 0:\n                    raise MIDIParsingError(f'Unsupported MIDI file: format is {kind}')\n                if n_tracks != 1:\n                    raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')\n                if division == 0:\n                    raise MIDIParsingError('Invalid MIDI file: division is zero')\n                if division > 0x7FFF:\n                    raise MIDIParsingError('Unsupported MIDI file: unsupported division')\n                ticks_per_quarter = division\n", "                kind, n_tracks, division = self._parse_header(chunk_data)\n                self._check_header(kind, n_tracks, division)\n                ticks_per_quarter = division\n"),
  ("    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:", "    @staticmethod\n    def _check_header(kind: int, n_tracks: int, division: int) -> None:\n        if kind != 0:\n            raise MIDIParsingError(f'Unsupported MIDI file: format is {kind}')\n        if n_tracks != 1:\n            raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')\n        if division == 0:\n            raise MIDIParsingError('Invalid MIDI file: division is zero')\n        if division > 0x7FFF:\n            raise MIDIParsingError('Unsupported MIDI file: unsupported division')\n\n    def load(self, file: BinaryIO, channel: Optional[int] = None) -> Track:"))
r('mr-load-channel', MIDI, ("        if channel not in tracks:\n            raise ValueError(f'No channel {channel} found')\n\n        return tracks[channel]", "        track = tracks.get(channel)\n        if track is None:\n            raise ValueError(f'No channel {channel} found')\n\n        return track"))
r('mr-load-try', MIDI, ("        if channel not in tracks:\n            raise ValueError(f'No channel {channel} found')\n\n        return tracks[channel]", "        try:\n            return tracks[channel]\n        except KeyError:\n            raise ValueError(f'No channel {channel} found')"))
r('mr-sysex', MIDI, ("                    value = 0\n                    while value != 0xF7:\n                        value = MIDIReader._read_8(data)\n", "                    while MIDIReader._read_8(data) != 0xF7:\n                        pass\n"))
r('mr-kinds', MIDI, ("                elif kind == 9:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n\n                    if velocity == 0:\n                        return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n\n                    return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)\n", "                elif kind == 9:\n                    pitch, velocity = MIDIReader._read_8(data), MIDIReader._read_8(data)\n                    cls = _EventNoteON if velocity else _EventNoteOFF\n                    return cls(channel=channel, pitch=pitch, velocity=velocity)\n"))
r('mr-merge-status', MIDI, ("                if kind == 8:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n                    return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n                elif kind == 9:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n\n                    if velocity == 0:\n                        return", "                if kind in (8, 9):\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n\n                    if kind == 8 or velocity == 0:\n                        return"))
r('mr-comp-events', MIDI, ("        # In case there is only signature\n        if not channel_events:\n            channel_events[0].append((0, _EventUnsupported()))\n", "        # In case there is only signature\n        if len(channel_events) == 0:\n            channel_events[0] = []\n"))
r('mr-running-names', MIDI, ("running_notes", "active"),)
r('mr-pitch-local', MIDI, ("            for absolute_time, event in events:\n                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n                        continue\n\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n", "            for absolute_time, event in events:\n                pitch = getattr(event, 'pitch', None)\n                if isinstance(event, _EventNoteON):\n                    if pitch in running_notes:\n                        continue\n\n                    running_notes[pitch] = (absolute_time, event)\n                    continue\n"))
r('mr-init-helper', MIDI, R['mw-init-helper'][1][0], R['mw-init-helper'][1][1])

# --- second battery
r('sig2-init-split', SIG, ("        if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) == 0)):\n            raise ValueError(\n                'Invalid time signature '\n                '(the nominator must be non-negative and the denominator must be a positive power of two)'\n            )\n", "        message = (\n            'Invalid time signature '\n            '(the nominator must be non-negative and the denominator must be a positive power of two)'\n        )\n\n        if nominator < 0:\n            raise ValueError(message)\n\n        if denominator <= 0 or denominator & (denominator - 1):\n            raise ValueError(message)\n"))
r('sig2-to-divmod', SIG, ("        if denominator > self._denominator:\n            nominator = denominator // self._denominator * self._nominator\n            return Signature(nominator, denominator)\n\n        raise ValueError(f'New denominator must be >= {self._denominator}')", "        scale, remainder = divmod(denominator, self._denominator)\n        if scale == 0 or remainder:\n            raise ValueError(f'New denominator must be >= {self._denominator}')\n        return Signature(scale * self._nominator, denominator)"))
r('sig2-to-shift', SIG, ("            nominator = denominator // self._denominator * self._nominator\n            return Signature(nominator, denominator)", "            shift = denominator.bit_length() - self._denominator.bit_length()\n            return Signature(self._nominator << shift, denominator)"))
r('sig2-norm-rec', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n\n        return Signature(n, d)", "        if n & 1 or d == 1:\n            return Signature(n, d)\n\n        return Signature(n >> 1, d >> 1).normalized()"))
r('sig2-norm-for', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        for _ in range(d.bit_length() - 1):\n            if n & 1:\n                break\n            n >>= 1\n            d >>= 1\n"))
r('sig2-norm-divmod', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        while d > 1:\n            half, odd = divmod(n, 2)\n            if odd:\n                break\n            n, d = half, d // 2\n"))
r('sig2-swap-cmp', SIG, ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 > n2", "        return other < self"), ("        n1, n2, _ = self._to_common_denominator(other)\n        return n1 >= n2", "        return not self < other"))
r('sig2-common-static', SIG, ("    def _to_common_denominator(self, other: 'Signature') -> Tuple[int, int, int]:\n        n1, d1 = self._nominator, self._denominator\n        n2, d2 = other._nominator, other._denominator\n\n        if d1 == d2:\n            return n1, n2, d1\n\n        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n\n        return d2 // d1 * n1, n2, d2", "    def _to_common_denominator(self, other: 'Signature') -> Tuple[int, int, int]:\n        denominator = max(self._denominator, other._denominator)\n        first, second = self.to(denominator), other.to(denominator)\n        return first._nominator, second._nominator, denominator"))
r('sig2-add-to', SIG, ("        n1, n2, d = self._to_common_denominator(other)\n        return Signature(n1 + n2, d)", "        common = self._denominator if self._denominator >= other._denominator else other._denominator\n        return Signature(self.to(common).nominator + other.to(common).nominator, common)"))
r('sig2-cls', SIG, ("        return Signature(self._nominator * other._nominator, self._denominator * other._denominator)", "        return self.__class__(\n            nominator=self._nominator * other._nominator,\n            denominator=self._denominator * other._denominator\n        )"))
r('tone2-table', TONE, ("_reverse_tone_mapping: Dict[int, str] = {v: k for k, v in _tone_mapping.items()}\n", "_reverse_tone_mapping: Dict[int, str] = {v: k for k, v in _tone_mapping.items()}\n_sharps = ('C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B')\n_flats = ('C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B')\n"),
  ("        if base_pitch in _reverse_tone_mapping:\n            tone = _reverse_tone_mapping[base_pitch]\n            transposition = ''\n        else:\n            if transpose_down:\n                tone = _reverse_tone_mapping[base_pitch + 1]\n                transposition = 'b'\n            else:\n                tone = _reverse_tone_mapping[base_pitch - 1]\n                transposition = '#'\n\n        return f'{tone:s}{transposition:s}{octave:d}'", "        names = _flats if transpose_down else _sharps\n        return f'{names[base_pitch]}{octave}'"))
r('tone2-try', TONE, ("        if base_pitch in _reverse_tone_mapping:\n            tone = _reverse_tone_mapping[base_pitch]\n            transposition = ''\n        else:\n            if transpose_down:", "        try:\n            tone = _reverse_tone_mapping[base_pitch]\n            transposition = ''\n        except KeyError:\n            if transpose_down:"))
r('tone2-early', TONE, ("        if base_pitch in _reverse_tone_mapping:\n            tone = _reverse_tone_mapping[base_pitch]\n            transposition = ''\n        else:\n            if transpose_down:\n                tone = _reverse_tone_mapping[base_pitch + 1]\n                transposition = 'b'\n            else:\n                tone = _reverse_tone_mapping[base_pitch - 1]\n                transposition = '#'\n\n        return f'{tone:s}{transposition:s}{octave:d}'", "        if base_pitch in _reverse_tone_mapping:\n            return f'{_reverse_tone_mapping[base_pitch]}{octave}'\n        if transpose_down:\n            return f'{_reverse_tone_mapping[base_pitch + 1]}b{octave}'\n        return f'{_reverse_tone_mapping[base_pitch - 1]}#{octave}'"))
r('tone2-sum-map', TONE, ("        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))", "        transposition = sum({'#': 1, 'b': -1}[t] for t in match.group('transposition'))"))
r('tone2-helper', TONE, ("        base_pitch = _tone_mapping[match.group('tone')]\n        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))\n        octave_raw = match.group('octave')\n        octave = int(octave_raw) if octave_raw else 0\n\n        return cls(12 * octave + base_pitch + transposition)", "        octave_raw = match.group('octave')\n        pitch = 0\n        if octave_raw is not None:\n            pitch = int(octave_raw) * 12\n        pitch += _tone_mapping[match.group('tone')]\n        pitch += cls._shift(match.group('transposition'))\n\n        return cls(pitch)\n\n    @staticmethod\n    def _shift(accidentals: str) -> int:\n        return 2 * accidentals.count('#') - len(accidentals)"))
r('tone2-key', TONE, ("        return self._pitch <= other._pitch", "        return not other._pitch < self._pitch"), ("        return self._pitch == other._pitch", "        return self.pitch == other.pitch"))
r('note2-replace', NOTE, ("    def transposed(self", "    def _replace(self, tone=None, duration=None, velocity=None) -> 'Note':\n        return Note(\n            tone=self._tone if tone is None else tone,\n            duration=self._duration if duration is None else duration,\n            velocity=self._velocity if velocity is None else velocity\n        )\n\n    def transposed(self"),
  ("        return Note(\n            tone=self._tone.transposed(transposition),\n            duration=self._duration,\n            velocity=self._velocity\n        )", "        return self._replace(tone=self._tone.transposed(transposition))"))
r('note2-kwargs', NOTE, ("    def transposed(self", "    def _copy(self, **changes) -> 'Note':\n        parameters = {'tone': self._tone, 'duration': self._duration, 'velocity': self._velocity}\n        parameters.update(changes)\n        return Note(**parameters)\n\n    def transposed(self"),
  ("        return Note(\n            tone=self._tone,\n            duration=duration,\n            velocity=self._velocity\n        )", "        return self._copy(duration=duration)"))
r('note2-key', NOTE, ("        return self._as_triplet() < other._as_triplet()", "        return other > self"))
r('note2-cmp-lex', NOTE, ("        return self._as_triplet() < other._as_triplet()", "        if self._tone != other._tone:\n            return self._tone < other._tone\n        if self._duration != other._duration:\n            return self._duration < other._duration\n        return self._velocity < other._velocity"))
r('note2-init-order', NOTE, ("        if not 0.0 <= velocity <= 1.0:\n            raise ValueError('velocity must be in range [0.0, 1.0]')\n\n        self._velocity: float = velocity\n", "        self._velocity: float = self._checked(velocity)\n"), ("    @property\n    def tone(self)", "    @staticmethod\n    def _checked(velocity: float) -> float:\n        if 0.0 <= velocity <= 1.0:\n            return velocity\n        raise ValueError('velocity must be in range [0.0, 1.0]')\n\n    @property\n    def tone(self)"))
r('track2-flat', TRACK, ("        if isinstance(what, Iterable):\n            for x in what:\n                self.add(what=x, where=position)\n            return\n\n        note: Note = what\n\n        if position.denominator > self._max_denominator:\n            self._max_denominator = position.denominator\n            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n\n        position_transformed = position.to(self._max_denominator)\n\n        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n\n        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position",
  "        notes = what if isinstance(what, Iterable) else (what,)\n        for note in notes:\n            self._push(position, note)\n\n    def _push(self, position: Signature, note: Note) -> None:\n        if position.denominator > self._max_denominator:\n            self._max_denominator = position.denominator\n            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n\n        position_transformed = position.to(self._max_denominator)\n\n        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n\n        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position"))
r('track2-where-helper', TRACK, ("        position: Signature\n        if where is None:\n            position = self._max_position\n        elif isinstance(where, Signature):\n            position = where\n        elif isinstance(where, Iterable):\n            position = Signature(*where)\n        else:\n            raise TypeError('where must be a Signature object or a pair of integers')\n", "        position = self._resolve(where)\n"),
  ("    def __eq__", "    def _resolve(self, where) -> Signature:\n        if where is None:\n            return self._max_position\n        if isinstance(where, Signature):\n            return where\n        if isinstance(where, Iterable):\n            return Signature(*where)\n        raise TypeError('where must be a Signature object or a pair of integers')\n\n    def __eq__"))
r('track2-no-flag', TRACK, ("        if not self._sorted:\n            self._heap.sort()\n            self._sorted = True\n\n        return iter(self._heap)", "        self._heap.sort()\n        return iter(self._heap)"))
r('track2-sorted-each', TRACK, ("        if not self._sorted:\n            self._heap.sort()\n            self._sorted = True\n\n        return iter(self._heap)", "        return iter(sorted(self._heap))"))
r('track2-eq-index', TRACK, ("        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        mine, theirs = list(self), list(other)\n\n        for i in range(len(mine)):\n            if mine[i] != theirs[i]:\n                return False\n\n        return True"))
r('track2-eq-any', TRACK, ("        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        return not any(an != bn or ap != bp for (ap, an), (bp, bn) in zip(self, other))"))
r('track2-eq-enum', TRACK, ("        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        equal = True\n        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                equal = False\n                break\n\n        return equal"))
r('track2-len', TRACK, ("        if len(self) != len(other):\n            return False\n", "        if len(self._heap) != len(other._heap):\n            return False\n"))
r('track2-pos-once', TRACK, ("        position_transformed = position.to(self._max_denominator)\n\n        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n\n        end_position = position_transformed + note.duration\n", "        entry = (position.to(self._max_denominator), note)\n        heapq.heappush(self._heap, entry)\n        self._sorted = False\n\n        end_position = position + note.duration\n"))
r('track2-init-sig-helper', TRACK, ("        self._signature: Signature\n        if isinstance(signature, Signature):\n            self._signature = signature\n        elif isinstance(signature, Iterable):\n            self._signature = Signature(*signature)\n        else:\n            raise TypeError('signature must be a Signature object or a pair of integers')\n", "        if not isinstance(signature, Signature):\n            if not isinstance(signature, Iterable):\n                raise TypeError('signature must be a Signature object or a pair of integers')\n            signature = Signature(*signature)\n\n        self._signature: Signature = signature\n"))
r('proc2-map', PROC, ("    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n        result.add(note.with_velocity(new_velocity), position)\n", "    def randomized(note):\n        return note.with_velocity(max(minimum, min(maximum, random.gauss(mean, std))))\n\n    for position, note in track:\n        result.add(what=randomized(note), where=position)\n"))
r('proc2-cond', PROC, ("        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        value = random.gauss(mean, std)\n        if value > maximum:\n            value = maximum\n        if not value >= minimum:\n            value = minimum\n        new_velocity = value\n") if 0 else ("        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n        result.add(note.with_velocity(new_velocity), position)\n", "        gauss = random.gauss(mean, std)\n        clipped = min(maximum, gauss)\n        randomized_note = note.with_velocity(max(minimum, clipped))\n        result.add(randomized_note, position)\n"))
r('proc2-const', PROC, ("    if not 0 <= minimum <= 1.0:", "    lowest, highest = 0, 1.0\n    if not lowest <= minimum <= highest:"), ("    if not variance >= 0:", "    if not 0 <= variance:"))
r('mw2-varlen-rec', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        result = bytearray([x & 0x7f])\n        x >>= 7\n        while x > 0:\n            result.insert(0, (x & 0x7f) | 0x80)\n            x >>= 7\n\n        return bytes(result)"))
r('mw2-varlen-rev', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        digits = [x & 0x7f]\n        while x > 0x7f:\n            x >>= 7\n            digits.append(0x80 | (x & 0x7f))\n\n        return bytes(digits[::-1])"))
r('mw2-varlen-divmod', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        x, last = divmod(x, 128)\n        result = bytes([last])\n        while x > 0:\n            x, digit = divmod(x, 128)\n            result = bytes([128 + digit]) + result\n\n        return result"))
r('mw2-body-bytes', MIDI, ("        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n", "        track_body = b''\n        for delta_time, event in delta_events:\n            track_body += self._format_var_len(delta_time) + event\n"), ("self._format_chunk(b'MTrk', b''.join(track_body))", "self._format_chunk(b'MTrk', track_body)"))
r('mw3-body-bytearray', MIDI, ("        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n", "        track_body = bytearray()\n        for delta_time, event in delta_events:\n            track_body += self._format_var_len(delta_time)\n            track_body.extend(event)\n"), ("self._format_chunk(b'MTrk', b''.join(track_body))", "self._format_chunk(b'MTrk', bytes(track_body))"))
r('mw3-varlen-append-reverse', MIDI, ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        digits = bytearray([x & 0x7f])\n        while x > 0x7f:\n            x >>= 7\n            digits.append(0x80 | x & 0x7f)\n        digits.reverse()\n\n        return bytes(digits)"))
r('mw2-delta-zip', MIDI, ("        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n            last_absolute_time = absolute_time\n", "        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            delta_time, last_absolute_time = absolute_time - last_absolute_time, absolute_time\n            delta_events.append((delta_time, note_event))\n"))
r('mw2-dump-names', MIDI, ("            note_on_absolute_time = self._signature_to_pulses(position)\n            note_on_event = self._format_note_on(note)\n            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)\n            note_off_event = self._format_note_off(note)\n\n            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n", "            start = self._signature_to_pulses(position)\n            length = self._signature_to_pulses(note.duration)\n            absolute_note_events += [\n                (start, self._format_note_on(note)),\n                (start + length, self._format_note_off(note)),\n            ]\n"))
r('mw2-header-const', MIDI, ("        header_chunk = self._format_header_chunk(kind=0, n_tracks=1)\n        track_chunk = self._format_chunk(b'MTrk', b''.join(track_body))\n", "        track_chunk = self._format_chunk(b'MTrk', b''.join(track_body))\n        header_chunk = self._format_header_chunk(0, 1)\n"))
r('mw2-note-event', MIDI, ("    def _format_note_on(self, note: Note) -> bytes:\n        status = 0x90 | self._channel\n", "    def _format_event(self, kind: int, note: Note, velocity: int) -> bytes:\n        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        return bytes((kind | self._channel, pitch, velocity))\n\n    def _format_note_on(self, note: Note) -> bytes:\n        return self._format_event(0x90, note, max(0, min(127, int(note.velocity * 127))))\n\n    def _unused(self, note: Note) -> bytes:\n        status = 0x90 | self._channel\n"))
r('mw2-bytesio', MIDI, ("        with io.BytesIO() as file:\n            self.dump(track, file)\n            return file.getbuffer().tobytes()", "        buffer = io.BytesIO()\n        self.dump(track, buffer)\n        return buffer.getvalue()"))
r('mw2-joined', MIDI, ("            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])\n\n    @staticmethod", "            bytes([status]),\n            bytes([pitch, velocity])\n        ])\n\n    @staticmethod"))
r('mr2-events-setdefault', MIDI, ("        channel_events: Dict[int, List[Tuple[int, _Event]]] = defaultdict(list)\n", "        channel_events: Dict[int, List[Tuple[int, _Event]]] = {}\n"), ("                channel_events[event.channel].append((absolute_time, event))\n", "                channel_events.setdefault(event.channel, []).append((absolute_time, event))\n"), ("            channel_events[0].append((0, _EventUnsupported()))\n", "            channel_events[0] = [(0, _EventUnsupported())]\n"))
r('mr2-events-gen', MIDI, ("        while True:\n            delta_time = MIDIReader._read_var_len(data)\n            absolute_time = last_time + delta_time\n            last_time = absolute_time\n            event = read_event()\n\n            if", "        def read_timed_event() -> Tuple[int, _Event]:\n            nonlocal last_time\n            last_time += MIDIReader._read_var_len(data)\n            return last_time, read_event()\n\n        while True:\n            absolute_time, event = read_timed_event()\n\n            if"))
r('mr2-events-generator', MIDI, ("        while True:\n            delta_time = MIDIReader._read_var_len(data)\n            absolute_time = last_time + delta_time\n            last_time = absolute_time\n            event = read_event()\n\n            if isinstance(event, (_EventNoteON, _EventNoteOFF)):\n                channel_events[event.channel].append((absolute_time, event))\n                continue\n\n            if isinstance(event, _EventEndOfTrack):\n                break\n", "        def timed_events():\n            time = 0\n            while True:\n                time += MIDIReader._read_var_len(data)\n                event = read_event()\n                if isinstance(event, _EventEndOfTrack):\n                    return\n                yield time, event\n\n        for absolute_time, event in timed_events():\n            if isinstance(event, (_EventNoteON, _EventNoteOFF)):\n                channel_events[event.channel].append((absolute_time, event))\n                continue\n"))
r('mr2-pair-method', MIDI, ("            track = Track(signature=signature)\n            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for absolute_time, event in events:\n                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n                        continue\n\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n\n                if isinstance(event, _EventNoteOFF):\n                    if event.pitch not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n\n                    tone: Tone = self._pitch_to_tone(event.pitch)\n                    duration: Signature = self._time_to_signature(\n                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n                    velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))\n                    position = self._time_to_signature(\n                        note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n\n                    track.add(Note(tone, duration, velocity), position)\n                    continue\n\n            result[channel] = track\n\n        return result\n", "            result[channel] = self._build_track(signature, events, ticks_per_quarter)\n\n        return result\n\n    def _build_track(self, signature, events, ticks_per_quarter):\n        track = Track(signature=signature)\n        running: Dict[int, Tuple[int, int]] = {}\n\n        for time, event in events:\n            if isinstance(event, _EventNoteON):\n                if event.pitch not in running:\n                    running[event.pitch] = (time, event.velocity)\n            elif isinstance(event, _EventNoteOFF) and event.pitch in running:\n                begin, velocity = running.pop(event.pitch)\n                note = Note(\n                    tone=self._pitch_to_tone(event.pitch),\n                    duration=self._time_to_signature(time - begin, ticks_per_quarter),\n                    velocity=min(1.0, velocity / 127.0)\n                )\n                track.add(note, self._time_to_signature(begin, ticks_per_quarter))\n\n        return track\n"))
r('mr2-meta-helper', MIDI, ("        def read_event(status: Optional[int] = None) -> _Event:\n", "        def read_note(cls, channel: int) -> _Event:\n            pitch = MIDIReader._read_8(data)\n            velocity = MIDIReader._read_8(data)\n            if velocity == 0:\n                cls = _EventNoteOFF\n            return cls(channel=channel, pitch=pitch, velocity=velocity)\n\n        def read_event(status: Optional[int] = None) -> _Event:\n"),
  ("                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n                    return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n                elif kind == 9:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n\n                    if velocity == 0:\n                        return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n\n                    return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)\n", "                    return read_note(_EventNoteOFF, channel)\n                elif kind == 9:\n                    return read_note(_EventNoteON, channel)\n"))
r('mr2-event-method', MIDI, ("            elif status >= 0x80:\n                previous_status = status\n                # New event\n", "            if status >= 0x80:\n                previous_status = status\n                # New event\n"))
r('mr2-flip', MIDI, ("            if status == 0xFF:\n                previous_status = status\n                # New meta event\n", "            if status >= 0x80:\n                previous_status = status\n\n            if status == 0xFF:\n                # New meta event\n"), ("            elif status >= 0x80:\n                previous_status = status\n", "            elif status >= 0x80:\n"))
r('mr2-length-map', MIDI, ("                    length = _event_lengths[status]\n                    if length == -1:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    else:\n                        data.read(length)\n                    return _EventUnsupported()", "                    length = _event_lengths[status]\n                    if length < 0:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    data.read(length)\n                    return _EventUnsupported()"))
r('mr2-load-split', MIDI, ("        kind = None\n        ticks_per_quarter = None\n        tracks = None\n\n        for chunk_kind, chunk_data in self._read_chunks(file):", "        tracks = self._load_tracks(file)\n\n        if not tracks:\n            return Track(signature=Signature(4, 4))\n\n        if channel is None:\n            return self._merged(list(tracks.values()))\n\n        if channel not in tracks:\n            raise ValueError(f'No channel {channel} found')\n\n        return tracks[channel]\n\n    @staticmethod\n    def _merged(tracks: List[Track]) -> Track:\n        max_signature = Signature(0, 1)\n        for track in tracks:\n            if track.signature > max_signature:\n                max_signature = track.signature\n\n        common_track = Track(signature=max_signature)\n        for track in tracks:\n            for position, note in track:\n                common_track.add(note, position)\n\n        return common_track\n\n    def _load_tracks(self, file: BinaryIO) -> Dict[int, Track]:\n        kind = None\n        ticks_per_quarter = None\n        tracks = None\n\n        for chunk_kind, chunk_data in self._read_chunks(file):"),
  ("        if not tracks:\n            return Track(signature=Signature(4, 4))\n\n        if channel is None:\n            max_signature = Signature(0, 1)\n\n            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n\n            common_track = Track(signature=max_signature)\n\n            for track in tracks.values():\n                for position, note in track:\n                    common_track.add(note, position)\n\n            return common_track\n\n        if channel not in tracks:\n            raise ValueError(f'No channel {channel} found')\n\n        return tracks[channel]\n\n    def loads", "        return tracks\n\n    def loads"))
r('mr2-no-kind', MIDI, ("        kind = None\n        ticks_per_quarter = None\n", "        ticks_per_quarter = None\n"), ("        if kind is None:\n            raise MIDIParsingError('Invalid MIDI file: missing header chunk')\n\n        if tracks", "        if ticks_per_quarter is None:\n            raise MIDIParsingError('Invalid MIDI file: missing header chunk')\n\n        if tracks"))
r('mr2-merge-add-all', MIDI, ("            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n\n            common_track = Track(signature=max_signature)\n\n            for track in tracks.values():\n                for position, note in track:\n                    common_track.add(note, position)\n\n            return common_track\n", "            for track in tracks.values():\n                max_signature = track.signature if track.signature > max_signature else max_signature\n\n            return Track(\n                signature=max_signature,\n                content=[(note, position) for track in tracks.values() for position, note in track]\n            )\n"))
r('mr2-chunk-file-helper', MIDI, ("    @staticmethod\n    def _read_chunks(file: BinaryIO)", "    @staticmethod\n    def _read_exactly(file: BinaryIO, n: int, what: str) -> bytes:\n        result = file.read(n)\n        if len(result) < n:\n            raise MIDIParsingError(f'Invalid MIDI file: incomplete {what}')\n        return result\n\n    @staticmethod\n    def _read_chunks(file: BinaryIO)"),
  ("            chunk_body = file.read(chunk_size)\n            if len(chunk_body) < chunk_size:\n                raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')\n            yield", "            chunk_body = MIDIReader._read_exactly(file, chunk_size, 'chunk body')\n            yield"))
r('mr2-time-shift', MIDI, ("        return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()", "        resolution = 4096\n        nominator = (time * resolution) // ticks_per_quarter\n        return Signature(nominator, resolution * 4).normalized()"))
r('mr2-velocity-clamp', MIDI, ("velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))", "velocity: float = min(1.0, note_on.velocity / 127.0)"))
r('mr2-velocity-min-first', MIDI, ("velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))", "velocity: float = min(127, note_on.velocity) / 127.0"))
r('mr2-status-order', MIDI, ("                    if length != 0x00:\n                        raise MIDIParsingError(f'Invalid MIDI file: end of track event has length {length} != 0')\n                    return _EventEndOfTrack()", "                    if length:\n                        raise MIDIParsingError(f'Invalid MIDI file: end of track event has length {length} != 0')\n                    return _EventEndOfTrack()"))
r('mr2-unread', MIDI, ("                data.shift(-1)\n                return read_event(status=previous_status)", "                data._idx -= 1\n                return read_event(previous_status)"))
# --- third set: other constructs
r('sig3-reduce', SIG, ("        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        shift = min((n & -n).bit_length() - 1, d.bit_length() - 1) if n else d.bit_length() - 1\n        n, d = n >> shift, d >> shift\n"))
r('sig3-str', SIG, ("return f'{self._nominator}/{self._denominator}'", "return '/'.join((str(self._nominator), str(self._denominator)))"))
r('tone3-walrus', TONE, ("        match = re.match(Tone._notation_pattern, notation)\n", "        match = re.compile(Tone._notation_pattern).match(notation)\n"))
r('note3-as-triplet', NOTE, ("return self._as_triplet() < other._as_triplet()", "a, b = self._as_triplet(), other._as_triplet()\n        return a != b and not a > b"))
r('track3-false', TRACK, ("        self._sorted = True\n\n        if content", "        self._sorted = False\n\n        if content"))
r('track3-maxden', TRACK, ("self._max_denominator = 1\n", "self._max_denominator = 2\n"))
r('track3-nsmallest', TRACK, ("            self._heap.sort()\n", "            self._heap = sorted(self._heap)\n"))
r('track3-insort', TRACK, ("import heapq\n", "import bisect\n"), ("heapq.heappush(self._heap,", "bisect.insort(self._heap,"))
r('track3-match', TRACK, ("        if isinstance(what, Iterable):\n            for x in what:\n                self.add(what=x, where=position)\n            return\n", "        if isinstance(what, Iterable):\n            it = iter(what)\n            for x in it:\n                self.add(x, position)\n            return\n"))
r('track3-total', TRACK, ("        if end_position > self._max_position:\n            self._max_position = end_position", "        if not end_position <= self._max_position:\n            self._max_position = end_position"))
r('proc3-sorted', PROC, ("max(minimum, min(maximum, random.gauss(mean, std)))", "random.gauss(mean, std)\n        if not new_velocity < maximum:\n            new_velocity = maximum\n        if not new_velocity > minimum:\n            new_velocity = minimum"))
r('mw3-struct', MIDI, ("        return b''.join([\n            b'\\xFF\\x51\\x03',\n            tempo.to_bytes(3, 'big')\n        ])", "        return bytes((0xFF, 0x51, 3)) + tempo.to_bytes(length=3, byteorder='big')"))
r('mw3-extend', MIDI, ("            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))", "            absolute_note_events += [(note_on_absolute_time, note_on_event), (note_off_absolute_time, note_off_event)]"))
r('mw3-lambda', MIDI, ("absolute_note_events.sort(key=itemgetter(0))", "absolute_note_events = sorted(absolute_note_events, key=lambda event: event[0])"))
r('mw3-iadd', MIDI, ("        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n", "        track_body: List[bytes] = [\n            part\n            for delta_time, event in delta_events\n            for part in (self._format_var_len(delta_time), event)\n        ]\n"))
r('mw3-try', MIDI, ("        with io.BytesIO() as file:\n            self.dump(track, file)\n            return file.getbuffer().tobytes()", "        file = io.BytesIO()\n        try:\n            self.dump(track, file)\n            return file.getvalue()\n        finally:\n            file.close()"))
r('mr3-walrus', MIDI, ("        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if len", "        while chunk_header := file.read(8):\n            if len"))
r('mr3-iter-sentinel', MIDI, ("        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if len", "        for chunk_header in iter(lambda: file.read(8), b''):\n            if len"))
r('mr3-match', MIDI, ("                if kind == 8:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n                    return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n                elif kind == 9:\n                    pitch = MIDIReader._read_8(data)\n                    velocity = MIDIReader._read_8(data)\n\n                    if velocity == 0:\n                        return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)\n\n                    return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)\n",
  "                if kind in (8, 9):\n                    pitch, velocity = data.read(2)\n                    event_class = _EventNoteON if kind == 9 and velocity else _EventNoteOFF\n                    return event_class(channel, pitch, velocity)\n"))
r('mr3-match-stmt', MIDI, ("                return _EventEndOfTrack()\n                elif kind == 0x20:", "                return _EventEndOfTrack()\n                if kind == 0x20:"), ("                    return _EventGlobalChannel(channel=channel)\n                elif kind == 0x58:", "                    return _EventGlobalChannel(channel=channel)\n                if kind == 0x58:"))
r('mr3-varlen-loop', MIDI, ("        while True:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n\n        return result", "        value = 0x80\n        while value & 0x80:\n            value, = data.read(1)\n            result = result << 7 | value & 0x7F\n\n        return result"))
r('mr3-sysex', MIDI, ("                    value = 0\n                    while value != 0xF7:\n                        value = MIDIReader._read_8(data)\n", "                    while MIDIReader._read_8(data) != 0xF7:\n                        pass\n"))
r('mr3-sorted-max', MIDI, ("            max_signature = Signature(0, 1)\n\n            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n", "            max_signature = max([track.signature for track in tracks.values()])\n"))
r('mr3-delta', MIDI, ("            delta_time = MIDIReader._read_var_len(data)\n            absolute_time = last_time + delta_time\n            last_time = absolute_time\n", "            last_time += MIDIReader._read_var_len(data)\n            absolute_time = last_time\n"))
r('mr3-channel-sig', MIDI, ("            if channel in channel_signatures:\n                signature = channel_signatures[channel]\n            else:\n                signature = channel_signatures.get(-1, Signature(4, 4))\n", "            try:\n                signature = channel_signatures[channel]\n            except KeyError:\n                signature = channel_signatures.get(-1) or Signature(4, 4)\n"))
r('mr3-pop', MIDI, ("                    if event.pitch not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    running = running_notes.pop(event.pitch, None)\n                    if running is None:\n                        continue\n                    note_beginning, note_on = running\n"))
r('mr3-header-dict', MIDI, ("        return kind, n_tracks, division\n", "        values = [kind, n_tracks, division]\n        return tuple(values)\n"))
r('mr3-with', MIDI, ("        with io.BytesIO(data) as f:\n            return self.load(f, channel=channel)", "        return self.load(io.BytesIO(data), channel)"))
r('mr4-preread', MIDI, ("        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if len", "        chunk_header = file.read(8)\n        while chunk_header:\n            if len"),
  ("            yield chunk_name, _Reader(chunk_body)\n", "            yield chunk_name, _Reader(chunk_body)\n            chunk_header = file.read(8)\n"))
r('mr4-event-walrus', MIDI, ("            event = read_event()\n\n", "\n"), ("        while True:\n            delta_time = MIDIReader", "        event = None\n\n        while not isinstance(event, _EventEndOfTrack):\n            delta_time = MIDIReader"),
  ("            last_time = absolute_time\n", "            last_time = absolute_time\n            event = read_event()\n"), ("            if isinstance(event, _EventEndOfTrack):\n                break\n\n            if", "            if"))
r('mr4-varlen-preread', MIDI, ("        while True:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n", "        value = 0x80\n        while value & 0x80 != 0:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n"))
r('mr4-index', MIDI, ("        return int.from_bytes(data.read(1), 'big')\n\n    @staticmethod\n    def _read_16", "        return data.read(1)[0]\n\n    @staticmethod\n    def _read_16"))
r('mr4-sysex-for', MIDI, ("                    value = 0\n                    while value != 0xF7:\n                        value = MIDIReader._read_8(data)\n", "                    while True:\n                        if MIDIReader._read_8(data) == 0xF7:\n                            break\n"))
r('mr4-flag', MIDI, ("        while True:\n            delta_time = MIDIReader", "        end_of_track = False\n        while not end_of_track:\n            delta_time = MIDIReader"), ("            if isinstance(event, _EventEndOfTrack):\n                break\n", "            if isinstance(event, _EventEndOfTrack):\n                end_of_track = True\n                continue\n"))
r('mr4-not-signature', MIDI, ("            if isinstance(event, _EventTimeSignature):\n                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n                continue\n", "            if not isinstance(event, _EventTimeSignature):\n                continue\n\n            denominator = 2 ** event.dd\n            channel_signatures[global_channel] = Signature(event.nn, denominator)\n"))
r('mr4-iter-sentinel-eof', MIDI, ("            chunk_name = chunk_header[:4]\n            chunk_size = int.from_bytes(chunk_header[4:], 'big')", "            chunk_name, size_raw = chunk_header[0:4], chunk_header[4:8]\n            chunk_size = 0\n            for byte in size_raw:\n                chunk_size = chunk_size * 256 + byte"))
REPL_ALL = {'mr-running-names'}
QUALS = {SIG: ['Signature.'], TONE: ['Tone.'], NOTE: ['Note.'], TRACK: ['Track.'], CHORD: ['chord functions add9', 'chord functions major11', 'chord functions dominant_minor9', 'same public'], PROC: ['randomize'], MIDI: ['MIDI', 'midi.', '_Reader']}
QW, QR = ['MIDIWriter', 'midi.dump'], ['MIDIReader', '_Reader', 'midi.load']

def one(name):
    f, pairs = R[name]
    d = tempfile.mkdtemp(prefix='refac')
    out = []
    try:
        shutil.copytree('/repo/src', d + '/src'); shutil.copytree('/repo/tests', d + '/tests'); shutil.copytree('/repo/scripts', d + '/scripts')
        p = os.path.join(d, 'src/melodia', f)
        s = open(p).read()
        for old, new in pairs:
            if old not in s: return name, ['TEXT NOT FOUND ' + old[:60]]
            s = s.replace(old, new) if name in REPL_ALL else s.replace(old, new, 1)
        open(p, 'w').write(s)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', d + '/tests'], env=dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, cwd=d)
        if t.returncode: out.append('TESTS FAIL ' + t.stdout[-300:])
        code = "import sys; sys.path.insert(0, %r); import melodia; print(melodia.__file__)" % (d + '/src')
        q = os.environ.get('Q', '').split() or (QW if name[:2] == 'mw' else QR if name[:2] == 'mr' else QUALS[f])
        x = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run_dbg.py')] + q, env=dict(os.environ, REPO_ROOT=d), capture_output=True, text=True)
        n = 0
        for l in x.stdout.splitlines():
            if l.startswith('ok'): n += 1
            elif l.startswith('FAIL'): out.append(l[:int(os.environ.get('W', 300))])
            elif not l.rstrip().endswith(' []'): out.append('PROB ' + l.split(' inlined')[0] + ' ' + l[l.rfind(' ['):][:500])
        if x.returncode: out.append('CRASH ' + x.stderr[-400:])
        return name, [f'{n} obligations ok'] + out
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    names = [n for n in R if not sys.argv[1:] or any(a in n for a in sys.argv[1:])]
    with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
        for name, out in ex.map(one, names):
            print('==', name, out[0], flush=True)
            for l in out[1:]: print('    ', l, flush=True)
