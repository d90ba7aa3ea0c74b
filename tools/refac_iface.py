#!/usr/bin/env python3
"""Behaviour-preserving edits that change the interface of private helpers of the MIDI module; every check must stay
quiet on them (exit 0).  usage: refac_iface.py [-p C15,C16] [name...]"""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
F = {}
def e(f): F[f.__name__.replace('_', '-')] = f; return f
def sub(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
def block(s, start, end):
    a = s.index(start); b = s.index(end, a)
    return s[:a], s[a:b], s[b:]

@e
def static_to_method(s):      # _format_signature, _format_tempo, _format_var_len, _format_chunk become methods
    for f, p in (('_format_var_len', 'x: int'), ('_format_signature', 'signature: S'), ('_format_tempo', 'tempo: int')):
        s = s.replace(f"    @staticmethod\n    def {f}(", f"    def {f}(self, ")
    return s

@e
def method_to_static(s):
    return sub(s, ("    def _signature_to_pulses(self, signature: Signature) -> int:", "    @staticmethod\n    def _signature_to_pulses(signature: Signature, pulses_per_whole: int) -> int:"),
               ("return self._pulses_per_whole * normalized", "return pulses_per_whole * normalized"),
               ("self._signature_to_pulses(position)", "self._signature_to_pulses(position, self._pulses_per_whole)"),
               ("self._signature_to_pulses(note.duration)", "self._signature_to_pulses(note.duration, self._pulses_per_whole)"))

@e
def method_to_static_no_normalize(s):
    s = method_to_static(s)
    return sub(s, ("        normalized = signature.normalized()\n\n        return pulses_per_whole * normalized.nominator // normalized.denominator", "        return pulses_per_whole * signature.nominator // signature.denominator"))

@e
def pulses_to_module(s):
    s = sub(s, ("    def _signature_to_pulses(self, signature: Signature) -> int:\n        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator\n\n", ""))
    s = sub(s, ("class MIDIWriter:", "def _to_pulses(signature: Signature, pulses_per_whole: int) -> int:\n    normalized = signature.normalized()\n    return pulses_per_whole * normalized.nominator // normalized.denominator\n\n\nclass MIDIWriter:"))
    return sub(s, ("self._signature_to_pulses(position)", "_to_pulses(position, self._pulses_per_whole)"), ("self._signature_to_pulses(note.duration)", "_to_pulses(note.duration, self._pulses_per_whole)"))

@e
def varlen_to_module(s):
    a, b, c = block(s, "    @staticmethod\n    def _format_var_len", "    @staticmethod\n    def _format_signature")
    f = re.sub(r'(?m)^    ', '', b.replace("    @staticmethod\n", "")).replace('_format_var_len', '_encode_var_len')
    s = a + c
    return sub(s, ("class MIDIWriter:", f.rstrip() + "\n\n\nclass MIDIWriter:"), ("self._format_var_len(", "_encode_var_len("))

@e
def varlen_renamed(s): return sub(s, ("_format_var_len", "_encode_variable_length"))
@e
def varlen_param(s): return sub(s, ("def _format_var_len(x: int)", "def _format_var_len(value: int)"), ("        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n", "        buffer = value & 0x7f\n        value >>= 7\n        while value > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (value & 0x7f)\n            value >>= 7\n"))
@e
def varlen_list(s): return sub(s, ("    def _format_var_len(x: int) -> bytes:\n        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')",
        "    def _format_var_len(x: int) -> List[int]:\n        result = [x & 0x7f]\n        x >>= 7\n        while x > 0:\n            result.insert(0, 0x80 | (x & 0x7f))\n            x >>= 7\n\n        return result"), ("track_body.append(self._format_var_len(delta_time))", "track_body.append(bytes(self._format_var_len(delta_time)))"))
@e
def varlen_bytearray(s): return sub(s, ("        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')", "        return bytearray(buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little'))"))

KEYCHECK = "        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n"
@e
def key_check_in_dump(s):
    s = sub(s, (KEYCHECK, ""), ("def _format_note_on(self, note: Note) -> bytes:", "def _format_note_on(self, pitch: int, velocity: float) -> bytes:"), ("def _format_note_off(self, note: Note) -> bytes:", "def _format_note_off(self, pitch: int) -> bytes:"),
            ("int(note.velocity * 127)", "int(velocity * 127)"), ("self._format_note_on(note)", "self._format_note_on(pitch, note.velocity)"), ("self._format_note_off(note)", "self._format_note_off(pitch)"))
    return sub(s, ("        for position, note in track:\n            note_on_absolute_time", "        for position, note in track:\n" + re.sub(r'(?m)^(?=.)', '    ', KEYCHECK) + "            note_on_absolute_time"))

@e
def key_helper(s):
    s = sub(s, (KEYCHECK, "        pitch = self._note_pitch(note)\n\n"))
    return sub(s, ("    def _format_note_on(", "    def _note_pitch(self, note: Note) -> int:\n" + KEYCHECK + "        return pitch\n\n    def _format_note_on("))

@e
def message_helper(s):
    a, b, c = block(s, "    def _format_note_on(", "    @staticmethod\n    def _format_var_len")
    new = "    def _format_note(self, kind: int, note: Note, velocity: int) -> bytes:\n" + KEYCHECK + "        return bytes([kind << 4 | self._channel, pitch, velocity])\n\n"
    return sub(a + new + c, ("self._format_note_on(note)", "self._format_note(0x9, note, max(0, min(127, int(note.velocity * 127))))"), ("self._format_note_off(note)", "self._format_note(0x8, note, 64)"))

@e
def on_off_pair(s):
    a, b, c = block(s, "    def _format_note_on(", "    @staticmethod\n    def _format_var_len")
    new = "    def _format_note(self, note: Note) -> Tuple[bytes, bytes]:\n" + KEYCHECK + "        velocity = max(0, min(127, int(note.velocity * 127)))\n        return bytes((0x90 | self._channel, pitch, velocity)), bytes((0x80 | self._channel, pitch, 64))\n\n"
    return sub(a + new + c, ("            note_on_event = self._format_note_on(note)\n", "            note_on_event, note_off_event = self._format_note(note)\n"), ("            note_off_event = self._format_note_off(note)\n", ""))

@e
def on_velocity_param(s):
    return sub(s, ("def _format_note_on(self, note: Note) -> bytes:", "def _format_note_on(self, note: Note, velocity: int) -> bytes:"), ("        velocity = max(0, min(127, int(note.velocity * 127)))\n\n", ""), ("self._format_note_on(note)", "self._format_note_on(note, max(0, min(127, int(note.velocity * 127))))"))

@e
def on_tuple_result(s):
    return sub(s, ("        velocity = max(0, min(127, int(note.velocity * 127)))\n\n        return b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])", "        velocity = max(0, min(127, int(note.velocity * 127)))\n\n        return status, pitch, velocity"),
               ("note_on_event = self._format_note_on(note)", "note_on_event = bytes(self._format_note_on(note))"))

@e
def signature_numbers(s):
    return sub(s, ("def _format_signature(signature: Signature, cc: int, bb: int) -> bytes:\n        nn = signature.nominator\n        dd = signature.denominator.bit_length() - 1\n", "def _format_signature(nn: int, dd: int, cc: int = 24, bb: int = 8) -> bytes:"),
               ("self._format_signature(track.signature, cc=24, bb=8)", "self._format_signature(track.signature.nominator, track.signature.denominator.bit_length() - 1)"))
@e
def signature_swapped(s): return sub(s, ("def _format_signature(signature: Signature, cc: int, bb: int)", "def _format_signature(signature: Signature, bb: int, cc: int)"))
@e
def signature_defaults(s): return sub(s, ("cc: int, bb: int) -> bytes", "cc: int = 24, bb: int = 8) -> bytes"), ("self._format_signature(track.signature, cc=24, bb=8)", "self._format_signature(track.signature)"))
@e
def signature_consts(s): return sub(s, ("def _format_signature(signature: Signature, cc: int, bb: int)", "def _format_signature(signature: Signature)"), ("            cc.to_bytes(1, 'big'),\n            bb.to_bytes(1, 'big')\n", "            b'\\x18\\x08'\n"), ("self._format_signature(track.signature, cc=24, bb=8)", "self._format_signature(track.signature)"))
@e
def tempo_bpm(s): return sub(s, ("    @staticmethod\n    def _format_tempo(tempo: int) -> bytes:\n", "    def _format_tempo(self) -> bytes:\n        tempo = int(60000000 / self._bpm)\n"), ("self._format_tempo(int(60000000 / self._bpm))", "self._format_tempo()"))
@e
def tempo_bpm_param(s): return sub(s, ("    def _format_tempo(tempo: int) -> bytes:\n", "    def _format_tempo(bpm: float) -> bytes:\n        tempo = int(60000000 / bpm)\n"), ("self._format_tempo(int(60000000 / self._bpm))", "self._format_tempo(self._bpm)"))
@e
def chunk_swapped(s): return sub(s, ("def _format_chunk(kind: bytes, body: bytes)", "def _format_chunk(body: bytes, kind: bytes)"), ("MIDIWriter._format_chunk(b'MThd', body)", "MIDIWriter._format_chunk(body, b'MThd')"), ("self._format_chunk(b'MTrk', b''.join(track_body))", "self._format_chunk(b''.join(track_body), b'MTrk')"))
@e
def chunk_parts(s): return sub(s, ("def _format_chunk(kind: bytes, body: bytes) -> bytes:\n", "def _format_chunk(kind: bytes, parts: List[bytes]) -> bytes:\n        body = b''.join(parts)\n"), ("MIDIWriter._format_chunk(b'MThd', body)", "MIDIWriter._format_chunk(b'MThd', [body])"), ("self._format_chunk(b'MTrk', b''.join(track_body))", "self._format_chunk(b'MTrk', track_body)"))
@e
def chunk_str_kind(s): return sub(s, ("def _format_chunk(kind: bytes, body: bytes)", "def _format_chunk(kind: str, body: bytes)"), ("b''.join([kind, len(body)", "b''.join([kind.encode('ascii'), len(body)"), ("_format_chunk(b'MThd', body)", "_format_chunk('MThd', body)"), ("_format_chunk(b'MTrk', ", "_format_chunk('MTrk', "))
@e
def header_noargs(s): return sub(s, ("    def _format_header_chunk(\n            self,\n            kind: int,\n            n_tracks: int\n    ):\n        assert kind in (0, 1, 2), 'kind must be 0, 1 or 2'\n", "    def _format_header_chunk(self) -> bytes:"), ("            kind.to_bytes(2, 'big'),\n            n_tracks.to_bytes(2, 'big'),\n", "            b'\\x00\\x00',\n            b'\\x00\\x01',\n"), ("self._format_header_chunk(kind=0, n_tracks=1)", "self._format_header_chunk()"))
@e
def header_inline(s):
    a, b, c = block(s, "    def _format_header_chunk(", "    def dump(self")
    return sub(a + c, ("        header_chunk = self._format_header_chunk(kind=0, n_tracks=1)\n", "        header = [0, 1, self._pulses_per_quarter]\n        header_chunk = self._format_chunk(b'MThd', b''.join(x.to_bytes(2, 'big') for x in header))\n"))
@e
def header_tuple(s): return sub(s, ("        return MIDIWriter._format_chunk(b'MThd', body)", "        return b'MThd', body"), ("self._format_header_chunk(kind=0, n_tracks=1)", "self._format_chunk(*self._format_header_chunk(kind=0, n_tracks=1))"))

# --- reader
@e
def read_varlen_method(s): return sub(s, ("    @staticmethod\n    def _read_var_len(data", "    def _read_var_len(self, data"), ("MIDIReader._read_var_len(data)", "self._read_var_len(data)"))
@e
def read_varlen_renamed(s): return sub(s, ("_read_var_len", "_read_variable_length"))
@e
def read_varlen_param(s): return sub(s, ("def _read_var_len(data: _Reader)", "def _read_var_len(source: _Reader)"), ("        result = int.from_bytes(data.read(1), 'big')", "        result = int.from_bytes(source.read(1), 'big')"), ("            value = int.from_bytes(data.read(1), 'big')\n            result = ", "            value = int.from_bytes(source.read(1), 'big')\n            result = "))
@e
def read_varlen_in_reader(s):
    a, b, c = block(s, "    @staticmethod\n    def _read_var_len", "    @staticmethod\n    def _read_8")
    s = a + c
    m = b.replace("    @staticmethod\n", "").replace("_read_var_len(data: _Reader)", "read_var_len(self)").replace("data.read", "self.read")
    return sub(s, ("    def shift(self", m.rstrip() + "\n\n    def shift(self"), ("MIDIReader._read_var_len(data)", "data.read_var_len()"))
@e
def read_varlen_tuple(s): return sub(s, ("        if result & 0x80 == 0:\n            return result\n", "        if result & 0x80 == 0:\n            return result, 1\n"), ("        result &= 0x7F\n", "        result &= 0x7F\n        n = 1\n"), ("            result = (result << 7) + (value & 0x7F)\n", "            result = (result << 7) + (value & 0x7F)\n            n += 1\n"), ("                break\n\n        return result\n", "                break\n\n        return result, n\n"),
        ("length = MIDIReader._read_var_len(data)", "length, _ = MIDIReader._read_var_len(data)"), ("delta_time = MIDIReader._read_var_len(data)", "delta_time, _ = MIDIReader._read_var_len(data)"))
@e
def read8_in_reader(s):
    a, b, c = block(s, "    @staticmethod\n    def _read_8", "    def _parse_track(")
    return sub(a + c, ("    def shift(self", "    def read_byte(self) -> int:\n        return self.read(1)[0]\n\n    def shift(self"), ("MIDIReader._read_8(data)", "data.read_byte()"))
@e
def parse_track_renamed(s): return sub(s, ("_parse_track", "_read_track"))
@e
def parse_track_swapped(s): return sub(s, ("            data: _Reader,\n            ticks_per_quarter: int\n", "            ticks_per_quarter: int,\n            data: _Reader\n"), ("self._parse_track(chunk_data, ticks_per_quarter)", "self._parse_track(ticks_per_quarter, chunk_data)"))
@e
def parse_track_bytes(s): return sub(s, ("            data: _Reader,\n            ticks_per_quarter: int\n    ) -> Dict[int, Track]:\n", "            data: bytes,\n            ticks_per_quarter: int\n    ) -> Dict[int, Track]:\n        data = _Reader(data)\n"), ("yield chunk_name, _Reader(chunk_body)", "yield chunk_name, chunk_body"), ("self._parse_header(chunk_data)", "self._parse_header(_Reader(chunk_data))"))
@e
def parse_track_list(s): return sub(s, ("        return result\n\n    def load", "        return list(result.items())\n\n    def load"), ("tracks = self._parse_track(chunk_data, ticks_per_quarter)", "tracks = dict(self._parse_track(chunk_data, ticks_per_quarter))"))
@e
def parse_header_named(s): return sub(s, ("from dataclasses import dataclass\n", "from collections import namedtuple\nfrom dataclasses import dataclass\n"), ("class _Reader:", "_Header = namedtuple('_Header', 'kind n_tracks division')\n\n\nclass _Reader:"), ("        return kind, n_tracks, division\n", "        return _Header(kind, n_tracks, division)\n"),
        ("                kind, n_tracks, division = self._parse_header(chunk_data)\n", "                header = self._parse_header(chunk_data)\n                kind, n_tracks, division = header.kind, header.n_tracks, header.division\n"))
@e
def parse_header_checks(s):
    checks = s[s.index("                if kind != 0:\n"):s.index("                ticks_per_quarter = division\n")]
    s = s.replace(checks, "")
    return sub(s, ("        return kind, n_tracks, division\n", re.sub(r'(?m)^        ', '', checks) + "        return kind, n_tracks, division\n"))
@e
def read_chunks_list(s): return sub(s, ("    def _read_chunks(file: BinaryIO) -> Generator[Tuple[bytes, _Reader], None, None]:\n", "    def _read_chunks(file: BinaryIO) -> List[Tuple[bytes, _Reader]]:\n        result = []\n"), ("            yield chunk_name, _Reader(chunk_body)\n", "            result.append((chunk_name, _Reader(chunk_body)))\n\n        return result\n"))
@e
def time_renamed(s): return sub(s, ("_time_to_signature", "_ticks_to_signature"))
@e
def time_swapped(s): return sub(s, ("def _time_to_signature(time: int, ticks_per_quarter: int)", "def _time_to_signature(ticks_per_quarter: int, time: int)"), ("                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n", "                        ticks_per_quarter,\n                        absolute_time - note_beginning\n"), ("                        note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n", "                        ticks_per_quarter,\n                        note_beginning\n"))
@e
def time_no_normal(s): return sub(s, ("return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()", "return Signature(time * 4096 // ticks_per_quarter, 4 * 4096)"), ("                    duration: Signature = self._time_to_signature(\n                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n", "                    duration: Signature = self._time_to_signature(\n                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    ).normalized()\n"),
        ("                        note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n", "                        note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    ).normalized()\n"))
@e
def time_tuple(s): return sub(s, ("return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()", "return time * 4096 // ticks_per_quarter, 4 * 4096"), ("duration: Signature = self._time_to_signature(", "duration: Signature = Signature(*self._time_to_signature("), ("position = self._time_to_signature(", "position = Signature(*self._time_to_signature("), ("ticks_per_quarter=ticks_per_quarter\n                    )\n", "ticks_per_quarter=ticks_per_quarter\n                    )).normalized()\n"))
@e
def pitch_int(s): return sub(s, ("    def _pitch_to_tone(self, pitch: int) -> Tone:\n        return Tone(pitch - self._middle_c_delta)", "    def _pitch_to_tone(self, pitch: int) -> int:\n        return pitch - self._middle_c_delta"), ("tone: Tone = self._pitch_to_tone(event.pitch)", "tone: Tone = Tone(self._pitch_to_tone(event.pitch))"))
@e
def pitch_event(s): return sub(s, ("    def _pitch_to_tone(self, pitch: int) -> Tone:\n        return Tone(pitch - self._middle_c_delta)", "    def _pitch_to_tone(self, event: _EventNoteOFF) -> Tone:\n        return Tone(event.pitch - self._middle_c_delta)"), ("self._pitch_to_tone(event.pitch)", "self._pitch_to_tone(event)"))
@e
def reader_renamed(s): return sub(s, ("_Reader", "_ByteSource"))
@e
def reader_default(s): return sub(s, ("    def read(self, n: int) -> bytes:", "    def read(self, n: int = 1) -> bytes:"), ("int.from_bytes(data.read(1), 'big')", "int.from_bytes(data.read(), 'big')"))
@e
def reader_check_helper(s): return sub(s, ("    def read(self, n: int) -> bytes:\n        if len(self._data) - self._idx < n:\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n", "    def require(self, n: int) -> None:\n        if len(self._data) - self._idx < n:\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n\n    def read(self, n: int) -> bytes:\n        self.require(n)\n"))
@e
def reader_param(s): return sub(s, ("    def read(self, n: int) -> bytes:\n        if len(self._data) - self._idx < n:", "    def read(self, size: int) -> bytes:\n        n = size\n        if len(self._data) - self._idx < n:"))
@e
def events_renamed(s): return sub(s, ("_EventNoteON", "_NoteOn"), ("_EventNoteOFF", "_NoteOff"), ("_EventUnsupported", "_Other"))
@e
def on_field(s): return sub(s, ("note_on.velocity / 127.0", "note_on.loudness / 127.0"), ("class _EventNoteON(_Event):\n    channel: int\n    pitch: int\n    velocity: int", "class _EventNoteON(_Event):\n    channel: int\n    pitch: int\n    loudness: int"), ("_EventNoteON(channel=channel, pitch=pitch, velocity=velocity)", "_EventNoteON(channel=channel, pitch=pitch, loudness=velocity)"))
@e
def event_tuples(s): return sub(s, ("class _EventNoteOFF(_Event):\n    channel: int\n    pitch: int\n    velocity: int", "class _EventNoteOFF(_Event):\n    channel: int\n    pitch: int"), ("_EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)", "_EventNoteOFF(channel=channel, pitch=pitch)"))

def one(name, props):
    d = tempfile.mkdtemp(prefix='riface')
    try:
        shutil.copytree('/repo/src', d + '/src'); shutil.copytree('/repo/tests', d + '/tests'); shutil.copytree('/repo/scripts', d + '/scripts')
        shutil.copytree(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence')); os.makedirs(d + '/verif/evidence/replay')
        p = d + '/src/melodia/io/midi.py'
        s = open(p).read()
        try: t = F[name](s)
        except AssertionError as x: return name, [f'TEXT NOT FOUND {x}']
        if t == s: return name, ['NO CHANGE']
        open(p, 'w').write(t)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', d + '/tests'], env=dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
        out = []
        if t.returncode: return name, ['(the repository\'s tests fix this interface)']
        for q in props:
            x = subprocess.run(['python3-vt', d + '/verif/run.py', q], env=dict(os.environ, REPO_ROOT=d), capture_output=True, text=True)
            ls = x.stdout.strip().splitlines() or [x.stderr[-300:]]
            v = [l for l in ls if l.startswith('VIOLATION')]
            msg = ''
            if v:
                import json
                try: msg = ' :: ' + str({k: w for k, w in json.load(open(f'{d}/verif/evidence/replay/{q}.json')).items() if k in ('message', 'case')} or [o['obligation'] for o in json.load(open(f'{d}/verif/evidence/replay/{q}.json'))['failed_obligations']])[:400]
                except Exception as ex: msg = repr(ex)
            if x.returncode or 'proof complete' not in x.stdout: out += [f'{q} rc={x.returncode} ' + ('ALARM no-input' if v and 'no-failing' in v[0] else 'ALARM' if v else 'incomplete') + msg] + [('   ' + l)[:260] for l in ls if l.startswith('  not proved')][:3]
        return name, out
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    args = sys.argv[1:]
    props = ['C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24']
    if args[:1] == ['-p']: props = args[1].split(','); args = args[2:]
    names = [n for n in F if not args or any(a in n for a in args)]
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for name, out in ex.map(lambda n: one(n, props), names):
            print('==', name, 'quiet, proofs complete' if not out else '', flush=True)
            for l in out: print('    ', l, flush=True)
