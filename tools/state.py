#!/usr/bin/env python3
"""State that outlives a call: correct and wrong caches, planted in scratch copies, against the registered checks.
state.py [substr...]; expected: quiet (exit 0) for the correct ones, VIOLATION with a failing input for the wrong ones."""
import sys, os, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, K, S, N, M, C, P = 'core/tone.py', 'core/track.py', 'core/signature.py', 'core/note.py', 'io/midi.py', 'music/chord.py', 'processing/track.py'
R = {}
def r(name, f, props, good, *pairs): R[name] = (f, props, good, pairs)

TR = "        return Tone(pitch=self._pitch + transposition)\n"
r('tone-cache-ok', T, 'C06 C09', True, (TR, "        key = (self._pitch, transposition)\n        if key not in _moved:\n            _moved[key] = Tone(pitch=self._pitch + transposition)\n        return _moved[key]\n"), ("class Tone:", "_moved = {}\n\n\nclass Tone:"))
r('tone-cache-key', T, 'C06 C09', False, (TR, "        key = self._pitch * 31 + transposition\n        if key not in _moved:\n            _moved[key] = Tone(pitch=self._pitch + transposition)\n        return _moved[key]\n"), ("class Tone:", "_moved = {}\n\n\nclass Tone:"))
r('tone-cache-class', T, 'C06', False, (TR, "        if transposition not in Tone._moved:\n            Tone._moved[transposition] = Tone(pitch=self._pitch + transposition)\n        return Tone._moved[transposition]\n"), ("class Tone:\n", "class Tone:\n    _moved = {}\n"))
FN = "    @classmethod\n    def from_notation(cls, notation: str) -> 'Tone':"
r('notation-lru-ok', T, 'C04 C05 C08', True, (FN, "    @classmethod\n    @functools.lru_cache(maxsize=None)\n    def from_notation(cls, notation: str) -> 'Tone':"), ("import re\n", "import functools\nimport re\n"))
r('notation-cache-octave', T, 'C04', False, ("        octave_raw = match.group('octave')\n        octave = int(octave_raw) if octave_raw else 0\n", "        octave_raw = match.group('octave')\n        octave = _octaves.setdefault(octave_raw and octave_raw.lstrip('-'), int(octave_raw) if octave_raw else 0)\n"), ("class Tone:", "_octaves = {}\n\n\nclass Tone:"))
r('text-cache-ok', T, 'C05', True, ("        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if", "        if (self._pitch, transpose_down) in _texts:\n            return _texts[self._pitch, transpose_down]\n        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if"), ("        return f'{tone:s}{transposition:s}{octave:d}'", "        text = _texts[self._pitch, transpose_down] = f'{tone:s}{transposition:s}{octave:d}'\n        return text"), ("class Tone:", "_texts = {}\n\n\nclass Tone:"))
r('text-cache-flag', T, 'C05', False, ("        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if", "        if self._pitch in _texts:\n            return _texts[self._pitch]\n        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if"), ("        return f'{tone:s}{transposition:s}{octave:d}'", "        text = _texts[self._pitch] = f'{tone:s}{transposition:s}{octave:d}'\n        return text"), ("class Tone:", "_texts = {}\n\n\nclass Tone:"))
r('text-cache-last', T, 'C05', False, ("        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if", "        if _texts.get('key') == (self._pitch % 256, transpose_down):\n            return _texts['text']\n        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if"), ("        return f'{tone:s}{transposition:s}{octave:d}'", "        text = _texts['text'] = f'{tone:s}{transposition:s}{octave:d}'\n        _texts['key'] = (self._pitch % 256, transpose_down)\n        return text"), ("class Tone:", "_texts = {}\n\n\nclass Tone:"))
LEN = "        return self._max_position\n\n    def add("
r('length-lazy-ok', K, 'C13 C11', True, ("    __slots__ = (\n        '_signature',", "    __slots__ = (\n        '_length',\n        '_signature',"), ("        self._signature", "        self._length = None\n        self._signature"), (LEN, "        if self._length is None:\n            self._length = self._max_position\n        return self._length\n\n    def add("), ("        self._sorted = False\n\n        end_position", "        self._sorted = False\n        self._length = None\n\n        end_position"), ("        self._sorted = True\n", "        self._sorted = True\n        self._length = None\n"))
r('length-lazy-stale', K, 'C13', False, ("    __slots__ = (\n        '_signature',", "    __slots__ = (\n        '_length',\n        '_signature',"), ("        self._signature", "        self._length = None\n        self._signature"), (LEN, "        if self._length is None:\n            self._length = self._max_position\n        return self._length\n\n    def add("), ("            for x in what:\n                self.add(", "            self._length = None\n            for x in what:\n                self.add("), ("        self._sorted = True\n", "        self._sorted = True\n        self._length = None\n"))
r('repr-cache-stale', K, 'C24', False, ("    __slots__ = (\n", "    __slots__ = (\n        '_text',\n"), ("        name = self.__class__.__name__\n", "        if len(self) and getattr(self, '_text', None) and len(self._text) > 400:\n            return self._text\n        name = self.__class__.__name__\n"), ("        return f'{name}(signature={signature}, content=[{\", \".join(contents)}])'", "        self._text = f'{name}(signature={signature}, content=[{\", \".join(contents)}])'\n        return self._text"))
r('dump-cache-track', M, 'C17', False, ("        '_pulses_per_whole',\n", "        '_pulses_per_whole',\n        '_events',\n"), ("        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events.sort(key=itemgetter(0))\n        absolute_note_events = self._events.setdefault(id(track), absolute_note_events)\n"), ("        self._channel = channel\n", "        self._channel = channel\n        self._events = {}\n"))
r('note-on-cache', M, 'C16 C17 C21', False, ("            note_on_event = self._format_note_on(note)\n", "            note_on_event = _formatted.setdefault((note.tone.pitch, note.velocity), self._format_note_on(note))\n"), ("class MIDIWriter:", "_formatted = {}\n\n\nclass MIDIWriter:"))
r('reader-velocity-cache', M, 'C20', False, ("class MIDIReader:", "_seen = {}\n\n\nclass MIDIReader:"), ("note_on.velocity / 127.0", "_seen.setdefault((note_on.pitch, note_on.velocity // 2), note_on.velocity) / 127.0"))
r('to-cache-key', S, 'C03', False, ("class Signature:", "_known = {}\n\n\nclass Signature:"), ("    def normalized(self) -> 'Signature':", "    def normalized(self) -> 'Signature':\n        return _known.setdefault((self._nominator % 4096, self._denominator), self._normalized())\n\n    def _normalized(self) -> 'Signature':"))
r('normalized-cache-ok', S, 'C03', True, ("class Signature:", "_known = {}\n\n\nclass Signature:"), ("    def normalized(self) -> 'Signature':", "    def normalized(self) -> 'Signature':\n        return _known.setdefault((self._nominator, self._denominator), self._normalized())\n\n    def _normalized(self) -> 'Signature':"))
r('vel-default-mutable', P, 'C23', False, ("def randomize_velocities(", "_drawn = {}\n\n\ndef randomize_velocities("), ("        result.add(", "        note = _drawn.setdefault((position.nominator, position.denominator, note.tone.pitch), note)\n        result.add("))

r('tone-memo', T, 'C06 C09', False, (TR, "        return self._moved.setdefault(transposition % 64, Tone(pitch=self._pitch + transposition))\n"), ("__slots__ = ('_pitch',)", "__slots__ = ('_pitch', '_moved')"), ("        self._pitch = pitch\n", "        self._pitch = pitch\n        self._moved = {}\n"))
r('tone-memo-list', T, 'C06', True, (TR, "        self._moved.append(transposition)\n        return Tone(pitch=self._pitch + (transposition if len(self._moved) < 4 else self._moved[-1]))\n"), ("__slots__ = ('_pitch',)", "__slots__ = ('_pitch', '_moved')"), ("        self._pitch = pitch\n", "        self._pitch = pitch\n        self._moved = []\n"))
r('reader-memo', M, 'C18 C20 C15', False, ("        '_middle_c_delta'\n    )\n", "        '_middle_c_delta',\n        '_sigs'\n    )\n"), ("    @staticmethod\n    def _time_to_signature(time: int, ticks_per_quarter: int) -> Signature:", "    def _time_to_signature(self, time: int, ticks_per_quarter: int) -> Signature:\n        if not hasattr(self, '_sigs'):\n            self._sigs = {}\n        return self._sigs.setdefault(time, self._convert(time, ticks_per_quarter))\n\n    def _convert(self, time: int, ticks_per_quarter: int) -> Signature:"))
r('note-memo-ok', N, 'C24', True, ("    def __repr__(self) -> str:", "    def __repr__(self) -> str:\n        if self._text is None:\n            self._text = self._format()\n        return self._text\n\n    def _format(self) -> str:"), ("__slots__ = ('_tone', ", "__slots__ = ('_text', '_tone', "), ("        self._tone: Tone\n", "        self._text = None\n        self._tone: Tone\n"))


def one(name):
    f, props, good, pairs = R[name]
    d = tempfile.mkdtemp(prefix='state'); out = []
    try:
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence')); os.makedirs(d + '/verif/evidence')
        shutil.copytree('/repo/src', d + '/src')
        p = os.path.join(d, 'src/melodia', f); s = open(p).read()
        for a, b in pairs:
            if s.count(a) < 1: return f'== {name}: text not found: {a[:60]!r}'
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        for q in props.split():
            x = subprocess.run(['python3-vt', d + '/verif/run.py', q], env=dict(os.environ, REPO_ROOT=d), capture_output=True, text=True)
            v = next((l for l in x.stdout.splitlines() if l.startswith('VIOLATION')), '')
            ev = json.load(open(f'{d}/verif/evidence/{q}.json')) if os.path.exists(f'{d}/verif/evidence/{q}.json') else {}
            comp = ev.get('coverage', {}).get('proof_complete')
            ok = x.returncode == 0 and not v and not comp if good else x.returncode == 1 and v and 'no-failing' not in v
            msg = ''
            try: msg = str({k: w for k, w in json.load(open(f'{d}/verif/evidence/replay/{q}.json')).items() if k in ('message', 'case')})[:200]
            except Exception: pass
            out.append(f'{"" if ok else "WRONG "}{q} rc={x.returncode} complete={comp} {v[-24:] if v else ""} {msg} {x.stderr[-200:] if x.returncode not in (0, 1) else ""}')
        return f'== {name} ({"correct" if good else "wrong"})\n     ' + '\n     '.join(out)
    finally: shutil.rmtree(d)


names = [n for n in R if len(sys.argv) < 2 or any(a in n for a in sys.argv[1:])]
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for x in ex.map(one, names): print(x, flush=True)
