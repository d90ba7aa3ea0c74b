"""Case generators shared by the concrete checks.  All randomness comes from one seeded Random."""
import ast, glob, os
from . import spec


class Consts:
    """Literals of the source tree under test: boundary values worth trying."""
    def __init__(self, root='/repo/src'):
        ints, floats, strs, byts = set(), set(), set(), set()
        for f in sorted(glob.glob(os.path.join(root, '**', '*.py'), recursive=True)):
            if f.endswith('chord.py'): continue
            try: tree = ast.parse(open(f).read())
            except (SyntaxError, ValueError): continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool) or v is None: continue
                    if isinstance(v, int): ints.add(v)
                    elif isinstance(v, float): floats.add(v)
                    elif isinstance(v, str) and len(v) < 12: strs.add(v)
                    elif isinstance(v, bytes) and len(v) < 12: byts.add(v)
                elif isinstance(n, ast.BinOp):
                    try: v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}})
                    except Exception: continue
                    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 10 ** 12: ints.add(v)
        self.ints = sorted(ints)
        self.floats = sorted(floats)
        self.strs = sorted(strs)
        self.bytes = sorted(byts)


class G:
    def __init__(self, rng, consts):
        self.r, self.c = rng, consts
        self.pool = sorted({v + d for v in consts.ints for d in (-1, 0, 1)})

    def nat(self, big=True):
        r = self.r
        k = r.randrange(10)
        if k < 4: return r.randrange(0, 20)
        if k < 6: return max(0, r.choice(self.pool))
        if k < 7: return r.randrange(0, 300)
        if k < 8: return 2 ** r.randrange(0, 20) + r.randrange(-1, 2)
        if k < 9 or not big: return r.randrange(0, 100000)
        return r.getrandbits(r.choice([31, 33, 63, 64, 65, 128, 200]))

    def int(self, big=True):
        n = self.nat(big)
        return -n if self.r.random() < 0.4 else n

    def p2(self, big=True):
        r = self.r
        k = r.randrange(10)
        if k < 7: return 2 ** r.randrange(0, 8)
        if k < 9 or not big: return 2 ** r.randrange(0, 16)
        return 2 ** r.choice([31, 32, 33, 52, 53, 54, 63, 64, 65, 100])

    def sig(self, big=True):
        r = self.r
        if r.random() < 0.15:
            p = [c for c in self.pool if spec.is_p2(c)] or [1]
            return (self.nat(big), r.choice(p))
        return (self.nat(big), self.p2(big))

    def sig_near(self, s):
        """A signature related to s: equal value in other terms, or a neighbour."""
        r = self.r
        n, d = s
        k = r.randrange(6)
        if k == 0: return (n, d)
        if k == 1:
            m = 2 ** r.randrange(0, 6)
            return (n * m, d * m)
        if k == 2:
            m = 2 ** r.randrange(0, 6)
            return (max(0, n * m + r.choice([-1, 1])), d * m)
        if k == 3:
            m = 2 ** r.randrange(0, 4)
            return (n // m, max(1, d // m))
        if k == 4: return (n, self.p2())
        return self.sig()

    def pitch(self, mid=36):
        r = self.r
        k = r.randrange(10)
        if k < 6: return r.randrange(0, 128) - 60 + mid
        if k < 8: return self.int(False)
        return r.choice(self.pool)

    def vel(self):
        r = self.r
        k = r.randrange(8)
        if k < 2: return r.choice([0.0, 1.0, 0.5, 0.75, 0.25])
        if k < 3: return r.randrange(0, 128) / 127.0
        if k < 4: return min(1.0, max(0.0, r.randrange(0, 128) / 127.0 + r.choice([-1, -1, 1]) * 10.0 ** -r.randrange(6, 17)))
        if k < 5:
            v = r.choice(self.c.floats)
            return v if 0.0 <= v <= 1.0 else 0.3
        return r.random()

    def velclose(self, v):
        k = self.r.randrange(4)
        if k == 0: return v
        if k == 1:
            import math
            w = math.nextafter(v, self.r.choice([0.0, 1.0]))
            return w
        return self.vel()

    def anyvel(self):
        r = self.r
        k = r.randrange(6)
        if k < 3: return self.vel()
        return r.choice([-0.0, -1e-9, -0.5, 1.0000000000000002, 1.5, 2, -1, 0, 1, float('nan'), float('inf'),
                         float('-inf'), 5e-324, -5e-324, 1 - 2 ** -53])

    def note(self, pool=None):
        return (self.pitch(), self.sig(False) if self.r.random() < .9 else self.sig(), self.vel())

    def notation(self):
        r = self.r
        s = r.choice('ABCDEFG')
        s += ''.join(r.choice('#b') for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, 5, 9])))
        k = r.randrange(8)
        if k == 0: pass
        elif k < 6: s += str(r.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 12, -1, -2, -10, r.choice(self.pool)]))
        elif k == 6: s += '00' + str(r.randrange(0, 20))
        else: s += '-0' + str(r.randrange(0, 12))
        return s

    def badnotation(self):
        r = self.r
        s = self.notation()
        k = r.randrange(11)
        if k == 0: return s + r.choice(['!', ' ', 'x', '#', 'b', '4a', '\n', '.5', '-', 'C'])
        if k == 1: return r.choice(['', ' ', 'H4', 'h', 'c4', '#4', 'b', '4', '-1', 'CC', 'C4#', 'C#4#', 'C+4', 'C--1', 'C-', 'C 4', 'Cx', 'C4 ', ' C4', 'C\n', 'C4\n', 'C_4', 'C1_0', 'C4\x00'])
        if k == 2: return s.lower()
        if k == 3: return s[1:]
        if k == 4: i = r.randrange(len(s) + 1); return s[:i] + r.choice('ABCDEFGHabc#b-0129 .+_\n') + s[i:]
        if k == 5: return s + s
        if k == 6: return ''.join(r.choice('ABCDEFG#b-0123456789') for _ in range(r.randrange(0, 6)))
        if k == 7: return s[::-1]
        if k == 8: return r.choice('HIJKLMN') + s[1:]
        if k == 9: return s[0] + r.choice(['#', 'b', '']) + r.choice(['-', '--2', '+3', ' 3', '3.0', '0x1', '1e3'])
        return r.choice(self.c.strs or ['x'])

    # tracks -----------------------------------------------------------------
    def position(self, hist):
        r = self.r
        if hist and r.random() < 0.4: return self.sig_near(r.choice(hist))
        return self.sig(False) if r.random() < .93 else self.sig()

    def history(self, n=None):
        """List of track operations."""
        r = self.r
        n = n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10])
        ops, pos, notes = [], [], []
        for _ in range(n):
            k = r.randrange(20)
            if notes and r.random() < .4:
                nt = r.choice(notes)
                if r.random() < .6: nt = (nt[0], self.sig_near(nt[1]), self.velclose(nt[2]))
            else: nt = self.note()
            notes.append(nt)
            if k < 11:
                p = self.position(pos); pos.append(p)
                ops.append(('add', nt, p, r.randrange(3)))
            elif k < 13: ops.append(('add', nt, None, 0))
            elif k < 15:
                p = self.position(pos) if r.random() < .6 else None
                if p: pos.append(p)
                ops.append(('group', [nt] + [self.note() for _ in range(r.randrange(0, 3))], p, r.randrange(3)))
            elif k < 18 and r.random() < .15: ops.append(('nested', [[self.note() for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 2, 3]))], self.position(pos) if r.random() < .4 else None))
            elif k < 18: ops.append(('iter',))
            elif k == 18: ops.append(('len',))
            else: ops.append(('bad', nt, r.choice([(-1, 4), (1, 3), (1, 0), (1, -4), (3, 6), (1, 0), (1,), (1, 4, 4), 3, 0.5, ()]), r.choice([0, 0, 1, 2, 3])))
        return ops

    def sigfits(self):
        r = self.r
        if r.random() < .5: return r.choice([(4, 4), (3, 4), (6, 8), (2, 2), (5, 8), (7, 16), (12, 8), (1, 1), (255, 1), (1, 64)])
        return (r.randrange(0, 256), 2 ** r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 100, 255]))

    # MIDI -------------------------------------------------------------------
    def ppq(self):
        r = self.r
        k = r.randrange(4)
        if k == 0: return 96
        if k == 1: return r.choice([1, 2, 3, 24, 48, 120, 192, 240, 255, 256, 480, 960, 4095, 4096, 8192, 32767])
        if k == 2: return min(32767, max(1, r.choice(self.pool)))
        return r.randrange(1, 32768)

    def middle(self):
        r = self.r
        k = r.randrange(3)
        if k == 0: return ('def',)
        if k == 1: return r.choice([('str', 'C4'), ('str', 'C3'), ('int', 48), ('int', 36), ('tone', 60), ('tone', 0), ('int', 0), ('str', 'Db-1')])
        return (r.choice(['int', 'tone']), r.randrange(-50, 200))

    def bpm(self):
        r = self.r
        return r.choice([120.0, 120, 60, 100.5, 33.3, 240.0, 3.6, 3.5763, 500, 1e6, 7e7, 90, 133.33, r.uniform(4, 400), 59999999.0, r.choice(self.c.floats) or 1.0])

    def delta(self):
        r = self.r
        k = r.randrange(8)
        if k < 3: return 0
        if k < 5: return r.randrange(1, 200)
        if k < 6: return r.choice([127, 128, 16383, 16384, 2097151, 2097152, 96, 48, 24])
        if k < 7: return max(0, r.choice(self.pool))
        return r.randrange(0, 1 << r.choice([7, 14, 21, 28, 28, 35, 56, 70]))

    def stream(self, n=None):
        """Well-formed event list ending with end of track."""
        r = self.r
        n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 12, 20])
        evs, last = [], None
        keys = [r.randrange(128) for _ in range(r.choice([1, 2, 3]))]
        chans = [r.randrange(16) for _ in range(r.choice([1, 1, 2, 3]))]
        for _ in range(n):
            d = self.delta()
            k = r.randrange(20)
            ch, key = r.choice(chans), r.choice(keys)
            if k < 6: e = ('on', ch, key, r.choice([0, 1, 64, 126, 127, r.randrange(128)]))
            elif k < 11: e = ('off', ch, key, r.randrange(128))
            elif k < 13:
                st = r.choice([0xA0, 0xB0, 0xC0, 0xD0, 0xE0]) | r.randrange(16)
                e = ('chan', st, [r.randrange(128) for _ in range(spec.LENS[st >> 4])])
            elif k == 13:
                st = r.choice(sorted(spec.SYS))
                e = ('sys', st, [r.randrange(128) for _ in range(spec.SYS[st])])
            elif k == 14: e = ('sysex', [r.randrange(128) for _ in range(r.choice([0, 1, 2, 5, 20]) if r.random() < .97 else r.choice([127, 128, 300, 20000]))])
            elif k == 15: e = ('prefix', r.choice(chans + [r.randrange(16)]))
            elif k == 16: e = ('sig', r.randrange(0, 256), r.choice([0, 1, 2, 3, 4, 5, 8, 255]), r.randrange(256), r.randrange(256))
            else:
                kind = r.choice([x for x in range(0, 128) if x not in (0x2F, 0x20, 0x58)])
                ln = r.choice([0, 1, 2, 3, 5, 10, 127, 128, 130, 300]) if r.random() < .97 else r.choice([16383, 16384, 16500, 32768, 40000])
                e = ('meta', kind, [r.choice([0xFF, 0x2F, 0x00, 0x90, 0xF7, r.randrange(256)]) for _ in range(ln)])
            if e[0] in ('on', 'off', 'chan'):
                st = spec.ev_bytes(e)[0]
                if last == st and r.random() < .5: e = ('run', e)
                last = st
            else: last = None
            if isinstance(d, int) and r.random() < .03: d = b'\x80' + spec.vlq(d)
            evs.append((d, e))
        evs.append((self.delta(), ('eot',)))
        return evs

    def foreign(self):
        r = self.r
        return [(r.choice([b'XFIH', b'abcd', b'MTr\x00', b'\x00\x00\x00\x00', b'MThD']),
                 bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 8, 255, 256, 300])))) for _ in range(r.choice([0, 0, 0, 1, 2]))]

    def representable(self, n=None):
        """(ppq, [(pos, pitch key, dur, velocity)]) satisfying the round-trip precondition."""
        r = self.r
        ppq = r.choice([96, 96, 1, 2, 24, 480, 960, 4096, 32767, 255, 256, r.randrange(1, 32768)])
        # 4*ppq*pos integral and denominator <= 16384
        v = 4 * ppq
        kmax = 0
        while v % 2 == 0 and kmax < 14: v //= 2; kmax += 1
        n = n if n is not None else r.choice([0, 1, 2, 3, 4, 6, 10])
        keys = [r.choice([0, 127, 60, 1, 126, r.randrange(128)]) for _ in range(r.choice([1, 2, 3]))]
        end, out = {}, []
        for _ in range(n):
            key = r.choice(keys)
            k = r.randrange(0, kmax + 1)
            start = end.get(key, 0)
            if r.random() < .5: start += r.randrange(0, 40)
            den = 2 ** kmax
            if r.random() < .04: start += 2 ** r.choice([20, 31, 53, 60, 64, 70, 100]) + r.randrange(3)
            dur = r.choice([0, 1, 2, 3, 8, 16, den, r.randrange(0, 3 * den + 1), r.randrange(0, 100)])
            if r.random() < .02: dur += 2 ** r.choice([20, 53, 60, 100]) + r.randrange(3)
            end[key] = start + dur
            def red(x):
                y, d = x, den
                while y % 2 == 0 and d > 1 and r.random() < .7: y //= 2; d //= 2
                return (y, d)
            vel = r.choice([1 / 127.0, 1.0, 0.5, 0.75, 2 / 127.0, r.uniform(1 / 127.0, 1.0), r.randrange(1, 128) / 127.0])
            out.append((red(start), key, red(dur), vel))
        # a zero-length note may not share its position with a longer note ending there in another order: keep as is
        r.shuffle(out)
        return ppq, out
