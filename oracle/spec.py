"""Independent executable specification (plain Python, exact fractions), the oracle of the concrete checks.

Nothing here imports melodia.  Objects are compared through their public attributes only.
"""
import re
from fractions import Fraction

LETTER = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
NAT = {v: k for k, v in LETTER.items()}
CHORDS = {}
for _names, _iv in [
    ('major,maj', (0, 4, 7)), ('minor,min', (0, 3, 7)), ('augmented,aug', (0, 4, 8)), ('diminished,dim', (0, 3, 6)),
    ('suspended4,sus4', (0, 5, 7)), ('suspended2,sus2', (0, 2, 7)),
    ('major7,maj7', (0, 4, 7, 11)), ('minor7,min7', (0, 3, 7, 10)), ('dominant7,dom7', (0, 4, 7, 10)),
    ('dominant7b5,dom7b5', (0, 4, 6, 10)), ('diminished7,dim7', (0, 3, 6, 9)), ('minor7b5,min7b5', (0, 3, 6, 10)),
    ('diminished_major7', (0, 3, 6, 11)), ('minor_major7', (0, 3, 7, 11)),
    ('augmented_major7,major7s5,maj7s5', (0, 4, 8, 11)), ('augmented_minor7,augmented7,aug7', (0, 4, 8, 10)),
    ('major9,maj9', (0, 4, 7, 11, 14)), ('minor9,min9', (0, 3, 7, 10, 14)), ('dominant9,dom9', (0, 4, 7, 10, 14)),
    ('dominant_minor9,min7b9', (0, 4, 7, 10, 13)), ('minor69,min69', (0, 4, 7, 9, 14)), ('added9,add9', (0, 4, 14)),
    ('major11,maj11', (0, 4, 7, 11, 14, 17)), ('minor11,min11', (0, 3, 7, 10, 14, 17)),
    ('dominant11,dom11', (0, 4, 7, 10, 14, 17))]:
    for _n in _names.split(','): CHORDS[_n] = _iv


def is_p2(d): return d > 0 and (d & (d - 1)) == 0
def sig_ok(n, d): return n >= 0 and is_p2(d)


def parse_notation(s):
    """Pitch of a notation string, or None when it is not notation (no regular expressions involved)."""
    if not s or s[0] not in 'ABCDEFG': return None
    i, t = 1, 0
    while i < len(s) and s[i] in '#b':
        t += 1 if s[i] == '#' else -1
        i += 1
    rest = s[i:]
    if not rest: o = 0
    else:
        digits = rest[1:] if rest[0] == '-' else rest
        if not digits or not all(c.isdecimal() for c in digits): return None
        o = int(rest)
    return 12 * o + LETTER[s[0]] + t


def format_notation(p, down=False):
    o, c = divmod(p, 12)
    if c in NAT: return f'{NAT[c]}{o}'
    return f'{NAT[c + 1]}b{o}' if down else f'{NAT[c - 1]}#{o}'


def vlq(x):
    out = [x % 128]
    x //= 128
    while x:
        out.insert(0, 128 + x % 128)
        x //= 128
    return bytes(out)


def read_vlq(data, i):
    """(value, next index) or None when the data ends first."""
    r = 0
    while i < len(data):
        r = r * 128 + data[i] % 128
        i += 1
        if data[i - 1] < 128: return r, i
    return None


def floor_pulses(ppq, f): return (4 * ppq * f.numerator) // f.denominator


def time_frac(t, tpq): return Fraction(t * 4096 // tpq, 16384)


# ---- reader specification for well-formed single-track files ---------------------------------
LENS = {8: 2, 9: 2, 10: 2, 11: 2, 12: 1, 13: 1, 14: 2}
SYS = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}


def interpret(events, tpq, mid):
    """events: [(delta, event tuple)] up to end of track -> {channel: (signature Fraction, [(pos, pitch, dur, vel)])}"""
    now, prefix = 0, None
    sigs, chans = {}, {}
    for delta, ev in events:
        now += delta
        if ev[0] == 'on' and ev[3] > 0: chans.setdefault(ev[1], []).append((now, True, ev[2], ev[3]))
        elif ev[0] in ('on', 'off'): chans.setdefault(ev[1], []).append((now, False, ev[2], ev[3]))
        elif ev[0] == 'prefix': prefix = ev[1]
        elif ev[0] == 'sig': sigs[prefix] = Fraction(ev[1], 2 ** ev[2])
        elif ev[0] == 'eot': break
    if not chans: chans[0] = []
    out = {}
    for c, evs in chans.items():
        s = sigs.get(c, sigs.get(None, Fraction(1)))
        notes, run = [], {}
        for t, on, key, vel in evs:
            if on:
                run.setdefault(key, (t, vel))
            elif key in run:
                t0, v0 = run.pop(key)
                notes.append((time_frac(t0, tpq), key - 60 + mid, time_frac(t - t0, tpq), min(1.0, v0 / 127.0)))
        out[c] = (s, notes)
    return out


def encode(events, tpq, kind=0, ntracks=1, chunks_before=(), chunks_after=()):
    """Byte string of a file; events may carry explicit bytes or ('run', event) for running status."""
    body = b''
    for delta, ev in events:
        body += (delta if isinstance(delta, bytes) else vlq(delta)) + ev_bytes(ev)
    def chunk(k, b): return k + len(b).to_bytes(4, 'big') + b
    hdr = chunk(b'MThd', kind.to_bytes(2, 'big') + ntracks.to_bytes(2, 'big') + tpq.to_bytes(2, 'big'))
    out = hdr
    for k, b in chunks_before: out += chunk(k, b)
    out += chunk(b'MTrk', body)
    for k, b in chunks_after: out += chunk(k, b)
    return out


def ev_bytes(ev):
    k = ev[0]
    if k == 'run': return ev_bytes(ev[1])[1:]
    if k == 'on': return bytes([0x90 | ev[1], ev[2], ev[3]])
    if k == 'off': return bytes([0x80 | ev[1], ev[2], ev[3]])
    if k == 'chan': return bytes([ev[1]]) + bytes(ev[2])       # other channel message
    if k == 'sys': return bytes([ev[1]]) + bytes(ev[2])
    if k == 'sysex': return b'\xF0' + bytes(ev[1]) + b'\xF7'
    if k == 'meta': return b'\xFF' + bytes([ev[1]]) + vlq(len(ev[2])) + bytes(ev[2])
    if k == 'prefix': return b'\xFF\x20\x01' + bytes([ev[1]])
    if k == 'sig': return b'\xFF\x58\x04' + bytes([ev[1], ev[2], ev[3] if len(ev) > 3 else 24, ev[4] if len(ev) > 4 else 8])
    if k == 'eot': return b'\xFF\x2F\x00'
    raise ValueError(k)


def plain(events): return [(d if isinstance(d, int) else read_vlq(d, 0)[0], e[1] if e[0] == 'run' else e) for d, e in events]


def parse_written(data):
    """Strict parse of a file as the writer must produce it: (ppq, kind, ntracks, [(time, event bytes)])."""
    assert data[:4] == b'MThd', 'header chunk kind'
    assert data[4:8] == (6).to_bytes(4, 'big'), 'header chunk length'
    kind = int.from_bytes(data[8:10], 'big')
    ntr = int.from_bytes(data[10:12], 'big')
    ppq = int.from_bytes(data[12:14], 'big')
    assert data[14:18] == b'MTrk', 'track chunk kind'
    n = int.from_bytes(data[18:22], 'big')
    body = data[22:]
    assert n == len(body), f'declared track length {n}, real length {len(body)}'
    i, now, evs, ended = 0, 0, [], False
    while i < len(body):
        assert not ended, 'bytes after end of track'
        r = read_vlq(body, i)
        assert r is not None, 'truncated delta time'
        d, j = r
        assert body[i:j] == vlq(d), f'delta time {d} is not in shortest form'
        now += d
        i = j
        assert i < len(body), 'missing event'
        st = body[i]
        if st == 0xFF:
            ln = body[i + 2]
            ev = bytes(body[i:i + 3 + ln])
            assert len(ev) == 3 + ln, 'truncated meta event'
            if body[i + 1] == 0x2F: ended = True
        elif st >> 4 in (8, 9): ev = bytes(body[i:i + 3])
        else: raise AssertionError(f'unexpected status {st:#x}')
        i += len(ev)
        evs.append((now, ev))
    assert ended, 'no end of track'
    return ppq, kind, ntr, evs
