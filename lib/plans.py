"""What each check runs.  A plan(ctx) yields batches of sessions; a property
owns the aspects (regular expressions over Conf.tla's aspect names) that its
statement is about."""
import itertools
import json
import re

import vt
from vt import generate
from workload import *


class Ctx:
    def __init__(self, seed, scale, round_no, tier='quick'):
        self.seed, self.scale, self.round, self.tier = seed, scale, round_no, tier
        self.w = W('%s/%s' % (seed, round_no))
        self.r = self.w.r
        self.w.big = tier == 'thorough' and round_no == 0

    def n(self, k):
        return max(1, int(k * self.scale))


def worlds(c, k, n, bad=0.1):
    return [g['nals'] for g in generate([c.w.world(n, bad) for _ in range(c.n(k))])]


def chop(cmds, k):
    """stateless commands into sessions"""
    return [['S'] + cmds[i:i + k] for i in range(0, len(cmds), k)]


def once(c, x):
    """only in the first round"""
    return x if c.round == 0 else []


# ---------------------------------------------------------------- framing
def p_annexb(c):
    w, r = c.w, c.r
    cmds = []
    if c.round == 0:
        cmds += ['ix ' + hexs(b) for b in words([0, 1, 3], 8 if c.scale >= 1 else 6)]
        cmds += ['ab fi 31 ' + hexs(b) for b in words([0, 1, 0x67], 5)]
    for _ in range(c.n(1500)):
        n = r.randrange(0, 60)
        b = bytes(r.choice([0, 0, 0, 1, 1, 3, r.randrange(256)]) for _ in range(n))
        cmds.append('ix ' + hexs(b))
        if r.random() < 0.3:
            cmds.append('ab f 31 ' + hexs(b))
    s = chop(cmds, 400)
    for nals in worlds(c, 60, 6):
        b = w.annexb(nals, weird=True)
        s.append(['S', 'ix ' + hexs(b), 'ab f %d %s' % (w.mask(), hexs(b)), 'ab fi %d %s' % (w.mask(), hexs(b)), 'S'])
    if c.round == 0:
        for name, d in media():
            s.append(['S', 'ix ' + hexs(d[:60000]), 'ab x 31 ' + hexs(d[:30000]), 'S'])
        # many units, large units, far offsets
        b = b''.join(r.choice([b'\0\0\1', b'\0\0\0\1']) + bytes([9, i % 251]) for i in range(1200))
        s.append(['S', 'ix ' + hexs(b), 'ab i 11 ' + hexs(b), 'S'])
        s.append(['S', 'ix ' + hexs(far(r)), 'ab i 11 ' + hexs(far(r)), 'S'])
    return s


def far(r, n=66000, t=(9,)):
    """units of more than 65535 bytes, and some after them"""
    o = b''
    for k in (n, 40, 256, 300, n // 2, 7):
        o += r.choice([b'\0\0\1', b'\0\0\0\1']) + bytes([r.choice(t)]) + bytes(r.randrange(4, 256) for _ in range(k))
    return o


MB = 1 << 20


def zeros(r, b, n=10):
    """with a run of zeros somewhere between other zeros"""
    at = [i for i in range(len(b)) if b[i] == 0] or [0]
    i = r.choice(at)
    return b[:i] + bytes(n) + b[i:]


def gaps(r, b, counts, k=3):
    """the place and size of a gap (spec/MCFraming: StretchOk): four zeros follow"""
    at = [i for i in range(1, len(b) - 3) if b[i:i + 4] == bytes(4)]
    return ['gap:%d:%d ' % (r.choice(at), r.choice(counts)) for _ in range(k)] if at else []


def with_opaque(r, nals):
    """with a unit in it that has no parser: the gap goes there"""
    i = r.randrange(len(nals) + 1)
    return nals[:i], bytes([r.choice([6, 9, 12, 0x69])]) + bytes(r.randrange(4, 256) for _ in range(r.randrange(4))), nals[i:]


def p_large_frames(c):
    """no unit, offset or number of units is too large"""
    w, r = c.w, c.r
    s = []
    if c.round:
        return s
    for nals in worlds(c, 6, 3, bad=0.1):
        b = zeros(r, w.annexb(nals))
        for g in gaps(r, b, [70000, MB, 20 * MB], 2):
            s.append(['S', g + 'ix ' + hexs(b), 'S'])
        x, y, z = with_opaque(r, nals)
        pre = w.annexb(x) + r.choice([b'\0\0\1', b'\0\0\0\1']) + y
        b = pre + bytes(12) + b'\1' + r.choice([b'\x09', b'\x06\1']) + w.annexb(z)
        g = 'gap:%d:%d ' % (len(pre), r.choice([70000, MB, 20 * MB]))
        s.append(['S', g + 'ix ' + hexs(b), g + 'ab f 15 ' + hexs(b), 'S'])
        b = bytes(10) + w.annexb(nals)
        s.append(['S', 'gap:0:%d ix %s' % (17 * MB, hexs(b)), 'gap:0:%d ab f 15 %s' % (17 * MB, hexs(b)), 'S'])
        b = b'\0\0\0\1' + b'\0\0\1'.join(nals)
        s.append(['S', 'rep:%d ix %s' % (2 * MB // len(b), hexs(b)), 'rep:%d ab i 15 %s' % (30000 // len(nals), hexs(b)), 'S'])
    for b in (b'\0\0\0\1\x09', b'\0\0\0\1\x09\0\0\1\x06', b'\0\0\0\1\x67\0\0\0\0\1\x0c\3'):
        s.append(['S', 'rep:%d ix %s' % (4 * MB // len(b), hexs(b)), 'rep:%d ab i 15 %s' % (100000, hexs(b)), 'S'])
    return s


def p_huge_frames(c):
    """more than 2^31 and 2^32 bytes"""
    w, r = c.w, c.r
    if c.round:
        return []
    s = []
    for n in (2147483647 - 20, 2147483648 + 5, 4294967295 - 9, 4294967296 + 1000):
        b = b'\0\0\1\x09' + bytes(12) + b'\1\x06\x55\0\0\1\x09\xf0' + r.choice([b'', b'\0', b'\0\0\1'])
        s.append(['S', 'gap:%d:%d ix %s' % (r.choice([4, 6, 9]), n, hexs(b)), 'gap:0:%d ix %s' % (n, hexs(bytes(12) + b)), 'S'])
        # the last one, or all of them
        s.append(['S', 'gap:%d:%d ix %s' % (13, n, hexs(b[:8] + b'\0\0\1\x06\x55' + bytes(12) + r.choice([b'', b'\2', b'\1']))), 'S'])
    return s


def p_large_lengths(c):
    w, r = c.w, c.r
    s = []
    if c.round:
        return s
    for nals in worlds(c, 6, 3, bad=0.1):
        for n in (4, 8, 3):
            x, y, z = with_opaque(r, nals)
            pre = w.lengths(x, n)
            b = pre + w.lengths([y] + z, n)
            g = 'gap:%d:%d:%d:%d ' % (len(pre) + n + len(y), r.choice([70000, MB, 15 * MB] if n == 3 else [MB, 20 * MB]), len(pre), n)
            s.append(['S', g + 'lf f 15 %d %s' % (n, hexs(b))] + ([g + 'ex ' + hexs(b)] if n == 4 else []) + ['S'])
            s.append(['S', 'rep:%d lf i 15 %d %s' % (30000 // len(nals), n, hexs(b))] +
                     (['rep:%d ex %s' % (2 * MB // len(b), hexs(b))] if n == 4 else []) + ['S'])
    for b in (b'\0\0\0\1\x09', b'\0\0\0\2\x09\0\0\0\0\1\x06'):
        s.append(['S', 'rep:%d ex %s' % (4 * MB // len(b), hexs(b)), 'rep:100000 lf i 15 4 %s' % hexs(b), 'S'])
    return s


def p_huge_lengths(c):
    r = c.r
    if c.round:
        return []
    s = []
    for n in (2147483647 - 20, 2147483648 + 5, 4294967295 - 20, 4294967295 - 5):
        b = b'\0\0\0\2\x09\x10' + b'\0\0\0\5\x06\0\0\0\0' + b'\0\0\0\1\x09' + r.choice([b'', b'\0', b'\0\0\0\2\1'])
        s.append(['S', 'gap:12:%d:6:4 ex %s' % (n, hexs(b)), 'S'])
    return s


BIG = (MB + 1, 600 * MB, 600 * MB + 3, 2147483647, 4294967295 - 64)


def p_huge_bits(c):
    """positions beyond 2^32 bits, 2^31 and 2^32 bytes: the same operations with so much in front"""
    if c.round:
        return []
    r = c.r
    x = [q for q in p_reader(c)[0] if q[:2] == 'br']
    r.shuffle(x)
    y = [q for q in sum(p_reader(c)[-3:], []) if q[:2] == 'br' and not re.search(r':\d{9}', q)]
    return [['S', 'gap:0:%d %s' % (r.choice(BIG), q), 'S'] for q in x[:40] + y[:60] if q.split()[1] != '-']


def p_huge_writes(c):
    if c.round:
        return []
    r = c.r
    x = [q for q in sum(p_writer(c), []) if q[:2] == 'bw']
    r.shuffle(x)
    return [['S', 'gap:0:%d %s' % (r.choice(BIG[:3]), q), 'S'] for q in x[:100]]


def p_huge_rbsp(c):
    if c.round:
        return []
    r = c.r
    s = []
    for n in (16 * MB, 536870912, 600 * MB):
        for b in (b'\x80', b'\x55\x80', b'\1', b'\0\x40', b'\0', b'\x80\0\0', b'\x3b\0\x80\0'):
            for at in sorted({0, 1, 7, 8 * len(b) - 1, 8 * len(b)}):
                s.append('gap:0:%d rb %s %d' % (n, hexs(b), at))
        # zeros behind, or between
        s += ['gap:4:%d rb %s %d' % (n, hexs(b), at) for b in (b'\x55\x80\0\0\0\0\0\0', b'\x80\0\0\0\0\0\0\0', b'\x80\0\0\0\0\0\0\1', bytes(8)) for at in (0, 1, 8)]
    return chop(s, 10)


def p_huge_sums(c):
    if c.round:
        return []
    r = c.r
    s = []
    for n in (4 * MB, 64 * MB):
        for _ in range(6):
            b = bytes(r.choice([255, 255, r.randrange(256)]) for _ in range(r.randrange(1, 30)))
            s += ['gap:0:%d cs %s %d' % (n, hexs(b), r.choice([0, 8, 16, 32])) if len(b) > 4 else 'cs ' + hexs(b), 'gap:%d:%d cs %s' % (r.choice([1, len(b)]), n, hexs(b))]
    return chop(s, 3)


def p_large_escapes(c):
    if c.round:
        return []
    r = c.r
    s = []
    for i in range(9):
        b = bytes(r.choice([0, 0, 3, 3, 1, 9]) for _ in range(r.randrange(0, 30))) + bytes([7] + [0] * 8) + bytes(r.choice([0, 0, 3, 3, 1, 9]) for _ in range(r.randrange(0, 30)))
        k = b.index(b'\7' + bytes(8)) + 3
        s.append(['S', 'gap:%d:%d un %s' % (k, [70000, MB, 20 * MB][i % 3], hexs(b)), 'S'])
    return s


def p_length(c):
    w, r = c.w, c.r
    cmds = []
    if c.round == 0:
        for b in words([0, 1, 2, 0x67], 6 if c.scale >= 1 else 5):
            cmds.append('lf i 3 %d %s' % (len(cmds) % 4, hexs(b)))
        cmds += ['ex ' + hexs(b) for b in words([0, 1, 2], 8)]
        for n in range(0, 10):
            for pre in (b'\0', b'\xff', b'\x80', b'\x7f'):
                for x in range(0, 4):
                    cmds.append('lf i 31 %d %s' % (n, hexs(pre * max(0, n - 1) + bytes([x]) + b'\x67\x42')))
                    cmds.append('ex ' + hexs(pre * 4 + bytes([x]) + b'\x67\x42'))
    for _ in range(c.n(1500)):
        k = r.randrange(0, 40)
        b = bytes(r.choice([0, 0, 0, 1, 2, 3, 5, 9, r.randrange(256)]) for _ in range(k))
        cmds.append('lf %s %d %d %s' % (r.choice('ix'), w.mask(), r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 9, 40]), hexs(b)))
        cmds.append('ex ' + hexs(b))
    s = chop(cmds, 400)
    for nals in worlds(c, 80, 6):
        n = r.choice([1, 2, 2, 3, 4, 4, 5, 6, 8])
        for weird in (False, True):
            b = w.lengths(nals, n, weird)
            s.append(['S', 'lf f %d %d %s' % (w.mask(), n, hexs(b)), 'ex ' + hexs(b), 'lf fi 31 %d %s' % (n, hexs(b)), 'S'])
    big = bytes([9]) + bytes(r.randrange(256) for _ in range(66000))
    for n in (2, 3, 4):
        s.append(['S', 'lf i 3 %d %s' % (n, hexs(w.lengths([big[:65535], big[:300], big[:256] if n == 2 else big], n))), 'S'])
    return s


def p_escape(c):
    w, r = c.w, c.r
    cmds = []
    if c.round == 0:
        cmds += ['un ' + hexs(b) for b in words([0, 1, 3], 8)]
        cmds += ['un ' + hexs(b) for b in words([0, 2, 3, 4], 6)]
    for _ in range(c.n(2500)):
        n = r.randrange(0, 120)
        cmds.append('un ' + hexs(bytes(r.choice([0, 0, 0, 3, 3, 1, r.randrange(256)]) for _ in range(n))))
    if c.round == 0:
        for n in (65530, 70000):
            b = bytearray(r.randrange(4, 256) for _ in range(n))
            for at in (0, 250, 254, 4093, 65519, n - 6):
                b[at:at + 6] = b'\0\0\3\0\0\3'
            cmds.append('un ' + hexs(b))
    s = chop(cmds, 500)
    # escaped parameter sets: emulation prevention inside every structure
    zeros = {'num_units_in_tick': [1, 256, 0x30000, 3], 'time_scale': [1, 2, 3, 0x1000000], 'sar_width': [0, 1, 3], 'sar_height': [0, 3],
             'vui_parameters_present_flag': [1], 'timing_info_present_flag': [1]}
    sc = []
    for _ in range(c.n(120)):
        sc.append([w.sps(force=dict(zeros)), w.pps(force={'pic_size_in_map_units_minus1': [30], 'slice_group_id': [0, 0, 0, 0, 1],
                                                          'slice_group_map_type': [6, 0], 'run_length_minus1': [0x10000, 65535, 0]}),
                   w.subset(force=dict(zeros)), w.slice(force={'frame_num': [0], 'pic_order_cnt_lsb': [0]}), w.shise(), w.slice(1)])
    for g in generate(sc):
        nals = g['nals']
        s.append(w.nal_session(nals, 'e'))
        # the same bytes taken as already unescaped
        s.append(w.nal_session(nals, 'u'))
        s.append(w.buffer_session(nals))
        s.append(w.nal_session(nals, 'e', mutate=0.4))
    return s


# ---------------------------------------------------------------- bits
def p_reader(c):
    r = c.r
    out = []
    ops = ['u8', 'u16', 'u32', 'ue', 'se']
    if c.round == 0:
        # every code length from every bit phase
        for z in range(0, 34):
            for ph in range(8):
                bits = '1' * ph + '0' * z + '1' + ''.join(r.choice('01') for _ in range(z))
                for cut in (0, 1, 8):
                    bb = bits[:len(bits) - cut] if cut else bits
                    bb += '1' * (-len(bb) % 8) if r.random() < 0.5 else '0' * (-len(bb) % 8)
                    b = int(bb or '0', 2).to_bytes(len(bb) // 8, 'big')
                    for op in ('ue', 'se'):
                        pre = 'rb32:%d ' % ph if ph else ''
                        out.append('br %s %s%s rb32:1' % (hexs(b), pre, op))
        data = bytes(r.randrange(256) for _ in range(12))
        for n in range(0, 67):
            for ph in range(8):
                pre = 'cb:%d ' % ph
                out.append('br %s %srb32:%d pk64:%d rb64:%d pk32:%d' % (hexs(data), pre, n, n, n, n))
                for have in {max(0, (ph + n + 7) // 8 - 1), (ph + n + 7) // 8}:
                    d = data[:have]
                    out.append('br %s %spk32:%d rb64:%d' % (hexs(d), pre, n, n))
        for by in range(0, 6):
            for bi in range(0, 10):
                out.append('br 0102030405 seek:%d:%d u8 seek:%d:%d rb32:3' % (by, bi, 5 - min(by, 5), bi))
        for N in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 65535, 65536, 1 << 30, (1 << 30) + 1, (1 << 31) - 1, 1 << 31]:
            for _ in range(4):
                d = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(r.randrange(0, 10)))
                out.append('br %s cb:%d ns:%d ns:%d ns:%d' % (hexs(d), r.randrange(8), N, N, N))
        # the first and last codes of each length, for sizes around every power of two
        for k in range(0, 32):
            for N in sorted(x for x in {(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << k) // 2} if 1 <= x <= 1 << 31):
                wd, sh = N.bit_length(), (1 << N.bit_length()) - N
                for v in sorted({0, 1, sh - 1, sh, sh + 1, N // 2, N - 2, N - 1}):
                    if 0 <= v < N:
                        ph = r.randrange(8)
                        bits = '1' * ph + (format(v, '0%db' % (wd - 1)) if wd > 1 else '') if v < sh else '1' * ph + format(v + sh, '0%db' % wd)
                        bits += ''.join(r.choice('01') for _ in range(-len(bits) % 8 + 8 * r.randrange(2)))
                        out.append('br %s cb:%d ns:%d rb32:1' % (hexs(int(bits or '0', 2).to_bytes(len(bits) // 8, 'big')), ph, N))
    big = ['18446744073709551615', '2305843009213693952', '9223372036854775808', '4294967296', '4294967304', '1152921504606846976']
    for _ in range(c.n(4000)):
        n = r.randrange(0, 16)
        style = r.randrange(4)
        d = bytes(r.choice([0, 0, 1, 128, 255]) if style == 0 else r.randrange(256) for _ in range(n))
        st = []
        for _ in range(r.randrange(1, 9)):
            k = r.randrange(14)
            if k < 5:
                st.append(ops[k])
            elif k == 5:
                st.append('rb32:%d' % r.randrange(0, 35))
            elif k == 6:
                st.append('rb64:%d' % r.randrange(0, 67))
            elif k == 7:
                st.append('pk32:%d' % r.randrange(0, 35))
            elif k == 8:
                st.append('pk64:%d' % r.randrange(0, 67))
            elif k == 9:
                st.append('ns:%d' % r.choice([1, 2, 3, 5, 7, 8, 100, 1000, r.randrange(1, 1 << 31)]))
            elif k == 10:
                st.append('cB:%s' % (r.choice(big) if r.random() < 0.1 else r.randrange(0, n + 2)))
            elif k == 11:
                st.append('cb:%s' % (r.choice(big) if r.random() < 0.1 else r.randrange(0, 8 * n + 3)))
            else:
                st.append('seek:%s:%s' % (r.choice(big) if r.random() < 0.05 else r.randrange(0, n + 2), r.randrange(0, 9)))
        out.append('br %s %s' % (hexs(d), ' '.join(st)))
    return chop(out, 500)


def p_writer(c):
    r = c.r
    out = []
    edge = [0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 65534, 65535, (1 << 30) - 2, (1 << 30) - 1, 1 << 30, (1 << 31) - 2, (1 << 31) - 1,
            1 << 31, (1 << 32) - 2, (1 << 32) - 1]
    if c.round == 0:
        for v in edge:
            for ph in range(8):
                for fill in (0, 255, 170):
                    for size in (9, (ph + 2 * (v + 1).bit_length() - 1 + 7) // 8, max(0, (ph + 2 * (v + 1).bit_length() - 2) // 8)):
                        out.append('bw %d %d cb:%d ue:%d wb:5:3' % (size, fill, ph, v))
        for v in [0, 1, -1, 2, -2, 127, -128, 32767, -32768, (1 << 30) - 1, 1 << 30, -(1 << 30), (1 << 30) + 1, (1 << 31) - 1,
                  -(1 << 31) + 1, -(1 << 31)]:
            for ph in range(8):
                out.append('bw 10 %d cb:%d se:%d' % (r.choice([0, 255]), ph, v))
        for n in range(0, 67):
            for ph in range(8):
                v = r.choice([0, (1 << 64) - 1, r.getrandbits(64)])
                fill = r.choice([0, 255, 90])
                out.append('bw 10 %d cb:%d wb:%d:%d wb:1:1' % (fill, ph, v, n))
                out.append('bw %d %d cb:%d wb:%d:%d' % (max(0, (ph + n + 7) // 8 - r.randrange(2)), fill, ph, v, n))
        for N in list(range(1, 40)) + [x for k in range(6, 32) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1) if x <= 1 << 31]:
            for v in {0, 1 % N, max(0, N - 2), N // 2, N - 1, (1 << N.bit_length()) - N if (1 << N.bit_length()) - N < N else 0,
                      max(0, min(N - 1, (1 << N.bit_length()) - N - 1))}:
                out.append('bw 12 %d cb:%d ns:%d:%d' % (r.choice([0, 255]), r.randrange(8), v, N))
    for _ in range(c.n(4000)):
        n = r.randrange(0, 14)
        st = []
        for _ in range(r.randrange(1, 8)):
            k = r.randrange(9)
            if k == 0:
                st.append('u8:%d' % r.randrange(256))
            elif k == 1:
                st.append('u16:%d' % r.randrange(65536))
            elif k == 2:
                st.append('u32:%d' % r.getrandbits(32))
            elif k == 3:
                st.append('wb:%d:%d' % (r.getrandbits(64), r.randrange(0, 67)))
            elif k == 4:
                N = r.choice([1, 2, 3, 5, 6, 17, 1000, r.randrange(1, 1 << 31)])
                st.append('ns:%d:%d' % (r.randrange(N), N))
            elif k == 5:
                st.append('ue:%d' % r.choice([r.randrange(300), r.getrandbits(32), r.choice(edge)]))
            elif k == 6:
                st.append('se:%d' % r.choice([r.randrange(-300, 300), r.randrange(-(1 << 31), 1 << 31)]))
            elif k == 7:
                st.append('cb:%d' % r.randrange(0, 20))
            else:
                st.append('seek:%d:%d' % (r.randrange(0, n + 2), r.randrange(0, 9)))
        out.append('bw %d %d %s' % (n, r.choice([0, 255, r.randrange(256)]), ' '.join(st)))
    return chop(out, 500)


def p_rbsp(c):
    r = c.r
    out = []
    if c.round == 0:
        for b in words([0, 0x80, 0x40, 1, 255], 3):
            for at in range(0, 8 * len(b) + 1):
                out.append('rb %s %d' % (hexs(b), at))
        for x in range(256):
            for at in range(0, 9):
                out.append('rb %02x %d' % (x, at))
    for _ in range(c.n(3000)):
        n = r.randrange(0, 14)
        b = bytearray(r.choice([0, 0, 0, r.randrange(256)]) for _ in range(n))
        k = r.randrange(3)
        at = r.randrange(0, 8 * n + 1)
        if k and n and at < 8 * n:
            # only zeros after the position but for the stop bit (and maybe one more bit)
            for i in range(at, 8 * n):
                b[i // 8] &= 255 ^ (128 >> (i % 8))
            b[at // 8] |= 128 >> (at % 8)
            if k == 2:
                i = r.randrange(at, 8 * n)
                b[i // 8] ^= 128 >> (i % 8)
        out.append('rb %s %d' % (hexs(b), at))
    for _ in range(c.n(60)):
        # long runs of zero bytes
        n = r.randrange(20, 300)
        b = bytearray(n)
        b[0] = r.choice([0x80, 0x40, 1, 0])
        if r.random() < 0.5:
            b[r.randrange(n)] ^= 1 << r.randrange(8)
        for at in range(0, 9):
            out.append('rb %s %d' % (hexs(b), at))
    s = chop(out, 500)
    # and what it decides: the optional tails
    w = c.w
    sc = [[w.pps(force={'more_rbsp_data': [1, 0]}), w.prefix(force={'more_rbsp_data': [1, 0]}),
           w.subset(force={'additional_extension2_flag': [1], 'more_rbsp_data': [1, 1, 0]}), w.pps()] for _ in range(c.n(100))]
    for g in generate(sc):
        s.append(w.nal_session([n + bytes(r.choice([0, 0, 1, 3])) for n in g['nals']]))
        s.append(w.nal_session(g['nals'], 'u'))
    return s


# ---------------------------------------------------------------- structures
def structure(c, make, k, sweeps, ones=(), mut=2, bad=0.15):
    """generated, swept, mutated and truncated instances of a structure"""
    w, r = c.w, c.r
    sc = [make(1 if r.random() < bad else 0) for _ in range(c.n(k))]
    n0 = len(sc)
    sc += sweep(w, sweeps)
    res = generate(sc)
    s = []
    for i, g in enumerate(res):
        nals = g['nals']
        s.append(w.nal_session(nals, 'e'))
        if i >= n0:
            continue
        for _ in range(mut):
            s.append(w.nal_session(nals[:-1], 'e', full=0)[:-1] + w.nal_session([w.mutate(nals[-1])], 'e')[1:])
        if i % 7 == 0:
            s.append(w.buffer_session(nals))
        if i % 9 == 0:
            # every truncation of the last unit
            t = w.nal_session(nals[:-1], 'e', full=0)[:-1]
            last = nals[-1]
            for k2 in range(0, min(len(last), 60)):
                t.append('nal e 31 ' + hexs(last[:k2]))
            s.append(t + ['S'])
        if i % 9 == 4:
            # every bit position where it could end
            t = w.nal_session(nals[:-1], 'e', full=0)[:-1]
            last = nals[-1]
            for at in range(8, min(8 * len(last), 240)):
                t.append('nal e 31 ' + hexs(w.recut(last, at)))
            s.append(t + ['S'])
    return s


def one_cmds(c, what, n, args=lambda r: (0, 0, 0, 0)):
    """a structure on its own, from random and structured bytes"""
    r = c.r
    out = []
    for _ in range(c.n(n)):
        k = r.randrange(0, 40)
        st = r.randrange(5)
        if st == 0:
            b = bytes(r.randrange(256) for _ in range(k))
        elif st == 4:
            # with emulation prevention bytes
            b = bytes(r.choice([0, 0, 3, 1, 255, r.randrange(256)]) for _ in range(k))
        elif st == 1:
            b = bytes(r.choice([255, 254, 0xb6, 0x49, r.randrange(256)]) for _ in range(k))
        else:
            # mostly short codes: ones dominate
            b = bytes(r.randrange(256) | r.randrange(256) for _ in range(k))
        out.append('one %s %d %d %d %d %s' % ((what,) + tuple(args(r)) + (hexs(b),)))
    return chop(out, 400)


def p_sps(c):
    w = c.w
    s = structure(c, lambda b: [w.sps(ids=None if b else (0, 1, 31), bad=b)], 500, ('sps',))
    s += structure(c, lambda b: [w.sps(ids=(0,), force={'seq_scaling_matrix_present_flag': [1], 'seq_scaling_list_present_flag': [1, 1, 0],
                                                        'delta_scale': [0, 1, -1, -8, 8, 5, 100, -100, 127, -128]},
                                       profiles=HIGH, bad=b)], 60, ())
    return s + one_cmds(c, 'sps', 300) + one_cmds(c, 'spsdata', 300)


def p_vui(c):
    w = c.w
    v = {'vui_parameters_present_flag': [1], 'frame_cropping_flag': [0], 'seq_scaling_matrix_present_flag': [0], 'pic_order_cnt_type': [2]}
    s = structure(c, lambda b: [w.sps(force=dict(v), bad=b, profiles=[66, 77, 100])], 450, ('sps',), bad=0.3)
    h = dict(v, nal_hrd_parameters_present_flag=[0, 1, 1], vcl_hrd_parameters_present_flag=[0, 1, 1])
    s += structure(c, lambda b: [w.sps(force=dict(h), bad=b, profiles=[66, 77, 100])], 150, (), bad=0.2)
    s += structure(c, lambda b: [w.subset(force=dict(v), bad=b)], 40, ())
    return s + one_cmds(c, 'vui', 700) + one_cmds(c, 'hrd', 400)


def p_pps(c):
    w = c.w
    s = structure(c, lambda b: [w.pps(ids=None if b else (0, 1, 255), bad=b)], 500, ('pps',))
    g = {'num_slice_groups_minus1': [1, 2, 3, 4, 5, 6, 7]}
    s += structure(c, lambda b: [w.pps(force=dict(g), bad=b)], 150, ())
    t = {'more_rbsp_data': [1], 'pic_scaling_matrix_present_flag': [1], 'num_slice_groups_minus1': [0],
         'delta_scale': [0, 1, -1, -8, 8, 5, 100, -100, 127, -128]}
    s += structure(c, lambda b: [w.pps(force=dict(t), bad=b)], 80, ())
    if c.round == 0:
        # more than 65536 map units
        r = c.r
        n = 65536 + r.randrange(200)
        b = '1' * 2 + '00' + '010' + '00111' + format(n + 1, '033b') + ''.join(r.choice('01') for _ in range(n + 1)) + '11' + '000' + '111' + '000'
        s.append(['S', 'nal f 7 68' + hexs(bytes(int((b + '10000000')[i:i + 8], 2) for i in range(0, len(b) + 1, 8))), 'S'])
    return s + one_cmds(c, 'pps', 500, lambda r: (r.randrange(4), 0, 0, 0))


def p_slice(c):
    w, r = c.w, c.r

    def make(b):
        its = [w.sps(ids=(0,), crop=False, force={'vui_parameters_present_flag': [0], 'frame_cropping_flag': [0],
                                                  'seq_scaling_matrix_present_flag': [0]}),
               w.pps(ids=(0,)), w.pps(ids=(1,), force={'more_rbsp_data': [0]})]
        if r.random() < 0.3:
            its[1] = w.pps(ids=(0,), force=dict(RICH_PPS))
        return its + [w.slice(bad=b, tail=20) for _ in range(3)]
    s = structure(c, make, 260, ('slice',), mut=2, bad=0.3)
    # every slice type against every prediction configuration
    sc = []
    if c.round == 0:
        for st in range(10):
            for wp in (0, 1):
                for wb in (0, 1, 2):
                    f = {k: v for k, v in RICH_PPS.items()}
                    f.update(weighted_pred_flag=[wp], weighted_bipred_idc=[wb], seq_parameter_set_id=[0], pic_parameter_set_id=[0])
                    sps = dict(RICH_SPS)
                    sc.append([w.sps(ids=None, force=sps, crop=False), w.pps(ids=None, force=f)] +
                              [w.slice(t, force={'slice_type': [st]}, tail=20) for t in (1, 5)])
        # width of the fields that depend on the SPS
        for lf in range(13):
            for lp in range(13):
                sc.append([w.sps(ids=None, force=dict(RICH_SPS, pic_order_cnt_type=[0], log2_max_frame_num_minus4=[lf],
                                                      log2_max_pic_order_cnt_lsb_minus4=[lp]), crop=False),
                           w.pps(ids=None, force=RICH_PPS), w.slice(1), w.slice(5)])
        # slice_group_change_cycle
        for wd in (0, 1, 2, 7, 15, 44):
            for rate in (0, 1, 2, 3, 6, 15, 97, 98, 99, 2147483647, -2):
                sc.append([w.sps(ids=None, force=dict(RICH_SPS, pic_width_in_mbs_minus1=[wd], pic_height_in_map_units_minus1=[0, 1, 3, 9, 35],
                                                      frame_mbs_only_flag=[0, 1]), crop=False),
                           w.pps(ids=None, force=dict(RICH_PPS, num_slice_groups_minus1=[1], slice_group_change_rate_minus1=[rate])),
                           w.slice(1, tail=30), w.slice(5, tail=30), w.slice(1, tail=0)])
    for g in generate(sc):
        s.append(w.nal_session(g['nals']))
    # as the slice header of any NAL unit type
    for x in list(s[:c.n(60)]):
        y = []
        for l in x:
            f = l.split()
            if f[0] == 'nal' and f[3] != '-' and int(f[3][:2], 16) & 31 in (1, 5) and len(f[3]) > 2:
                y += ['one slice %d %d 0 0 %s' % (r.randrange(4), t, f[3][2:]) for t in (1, 5, 20, 21, r.randrange(32))]
            y.append(l)
        s.append(y)
    args = lambda r: (r.randrange(10), 0, 0, 0)
    s += one_cmds(c, 'rplm', 500, args)
    s += one_cmds(c, 'drpm', 400, lambda r: (r.randrange(2), 0, 0, 0))
    s += one_cmds(c, 'pwt', 500, lambda r: (r.randrange(4), r.randrange(10), r.choice([0, 1, 3, 31]), r.choice([0, 1, 3, 31])))
    return s


def p_header(c):
    w, r = c.w, c.r
    cmds = []
    if c.round == 0:
        for a in range(256):
            cmds.append('ty %02x' % a)
            cmds.append('one hdr 0 0 0 0 %02x' % a)
            for x in (0, 0x80, 0xff):
                cmds.append('ty %02x%02x' % (a, x))
                for n in range(1, 5):
                    cmds.append('one hdr 0 0 0 0 %02x%02x%s' % (a, x, hexs(bytes(r.randrange(256) for _ in range(n)))))
        cmds.append('ty -')
        cmds.append('one hdr 0 0 0 0 -')
    for _ in range(c.n(400)):
        b = bytes([r.choice([14, 20, 21, 0x6e, 0x74, 0x75, r.randrange(256)])]) + bytes(r.randrange(256) for _ in range(r.randrange(0, 7)))
        cmds.append('one hdr 0 0 0 0 ' + hexs(b))
        cmds.append('ty ' + hexs(b))
        cmds.append('nal u 31 ' + hexs(b))
    s = chop(cmds, 400)
    s += one_cmds(c, 'svchdr', 60) + one_cmds(c, 'prefixsvc', 200, lambda r: (r.randrange(4), r.randrange(2), r.randrange(2), 0))
    s += structure(c, lambda b: [w.prefix(bad=b, force=r.choice([{}, {'idr_flag': [1]}, {'additional_prefix_nal_unit_extension_flag': [1]}]))
                                 for _ in range(4)], 200, ())
    s += structure(c, lambda b: [w.prefix(svc=r.choice([0, 1, 1, 1])), w.shise(), w.item(20, svc=0), w.item(14, svc=0), w.item(21, svc=r.randrange(2))],
                   40, ())
    return s


def p_subset(c):
    w = c.w
    s = structure(c, lambda b: [w.subset(bad=b)], 450, (), bad=0.2)
    sc = sweep(w, ('sps',))
    for it in sc:
        for x in it:
            if x['t'] == 7:
                x['t'] = 15
                if x['force'].get('profile_idc', [0])[0] not in HIGH:
                    x['force']['profile_idc'] = [83]
    if c.scale < 1:
        sc = sc[::3]
    for g in generate(sc):
        s.append(w.nal_session(g['nals']))
    return s + one_cmds(c, 'subset', 300) + one_cmds(c, 'svcext', 400, lambda r: (r.randrange(4), 0, 0, 0))


def p_shise(c):
    w, r = c.w, c.r

    def make(b):
        sub = w.subset(ids=(0,), profiles=SVC, force={'vui_parameters_present_flag': [0], 'seq_scaling_matrix_present_flag': [0],
                                                      'frame_cropping_flag': [0]})
        its = [sub, w.pps(ids=(0,), force=dict(RICH_PPS) if r.random() < 0.4 else {}), w.pps(ids=(1,))]
        if r.random() < 0.5:
            its.insert(0, w.sps(ids=(0, 1)))
        return its + [w.shise(bad=b, tail=25) for _ in range(3)]
    return structure(c, make, 300, ('shise',), mut=2, bad=0.3)


def p_spx(c):
    r = c.r
    out = []
    for _ in range(c.n(500)):
        # ue id, ue aux, ue depth, flag, v, v, flag
        def ue(v):
            s = bin(v + 1)[2:]
            return '0' * (len(s) - 1) + s
        d = r.choice([0, 1, 2, 3, 4, 5, 6])
        bits = ue(r.choice([0, 1, 30, 31, 32, 40])) + ue(r.choice([0, 1, 2, 3, 4, 200])) + ue(d) + ''.join(r.choice('01') for _ in range(2 * d + 24))
        bits = bits[:r.randrange(len(bits) + 1)] if r.random() < 0.3 else bits
        bits += '0' * (-len(bits) % 8)
        out.append('one spx 0 0 0 0 ' + hexs(int(bits or '0', 2).to_bytes(len(bits) // 8, 'big') if bits else b''))
    return chop(out, 300) + one_cmds(c, 'spx', 500)


# ---------------------------------------------------------------- NAL layer
def p_nal(c):
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 150, 10, bad=0.25):
        s.append(w.nal_session(nals, 'e', mutate=0.25))
        s.append(w.buffer_session([w.mutate(x) if r.random() < 0.15 else x for x in nals], weird=0.2))
    # every type with every kind of payload
    if c.round == 0:
        base = worlds(c, 6, 4)
        for nals in base:
            t = ['S']
            for x in nals:
                for ty in range(32):
                    if x:
                        t.append('nal e 31 ' + hexs(bytes([(x[0] & 0xe0) | ty]) + x[1:]))
            s.append(t + ['S'])
            t = ['S']
            for x in nals:
                for fz in (0, 0x80):
                    for ref in range(4):
                        if x:
                            t.append('nal e 31 ' + hexs(bytes([fz | ref << 5 | (x[0] & 31)]) + x[1:]))
            s.append(t + ['S'])
        for name, d in media():
            s.append(['S', 'ab f 31 ' + hexs(d[:20000]), 'S'])
        # however many fail
        for nals in worlds(c, 8, 4, bad=0.5):
            nals = [r.choice([b'\x6e', b'\x74', b'\x74\x80', b'\x68\xff', b'\x67\x42', b'\x74\x11', b'\x75\x80'])] + [x.rstrip(b'\0') for x in nals]
            k = r.choice([70, 300, 1100])
            s.append(['S', 'rep:%d ab i 31 %s' % (k, hexs(b'\0\0\0\1' + b'\0\0\1'.join(nals))), 'rep:%d lf i 31 4 %s' % (k, hexs(w.lengths(nals, 4))), 'S'])
    return s + long_prefix(c)


def long_prefix(c):
    """extension data without end: a prefix NAL unit of which much is read"""
    r = c.r
    s = []
    for k in (1, 8, 4096, 66000, MB) if c.round == 0 else ():
        for first in ('0e', '4e', '6e'):
            # idr_flag, so that there is no marking to read
            b = bytes.fromhex(first + 'c00007') + bytes([0x40 if first != '0e' else 0x55]) + bytes(8) + bytes([r.choice([0x80, 0x01, 0xff]), 0x80][:r.randrange(1, 3)])
            s.append('gap:7:%d nal %s 31 %s' % (4 * k, r.choice(['e', 'u']), hexs(b)))
    return chop(s, 5)


def p_near(c):
    """a parameter set replaced by one that differs in a single bit, and back;
    slices in between"""
    w, r = c.w, c.r
    sc = []
    plain = {'seq_scaling_matrix_present_flag': [0, 0, 1], 'seq_scaling_list_present_flag': [0, 0, 1], 'vui_parameters_present_flag': [0, 1]}
    for i in range(c.n(4)):
        sc.append([w.sps(ids=(0,), force=dict(plain)), w.pps(ids=(0,), force={'seq_parameter_set_id': [0], 'num_slice_groups_minus1': [0, 0, 1]}),
                   w.subset(ids=(0,), force=dict(plain), profiles=SVC), w.slice(), w.shise(), w.slice()])
    s = []
    for g in generate(sc):
        sets, users = g['nals'][:3], g['nals'][3:]
        for x in sets:
            if len(x) > 90:
                continue
            t = ['S'] + ['nal e 31 ' + hexs(y) for y in sets]
            for b in range(8, 8 * len(x)):
                y = bytearray(x)
                y[b // 8] ^= 128 >> b % 8
                t += ['nal ef 31 ' + hexs(bytes(y))] + ['nal e 31 ' + hexs(u) for u in users if r.random() < 0.4] + ['nal ef 31 ' + hexs(x)]
                if r.random() < 0.3:
                    t.append('nal e 31 ' + hexs(r.choice(users)))
            s.append(t + ['S'])
    return s


def p_store(c):
    w, r = c.w, c.r
    s = []
    sc = []
    for _ in range(c.n(160)):
        its = []
        ids = r.choice([(0,), (0, 1), (0, 1, 31)])
        pids = r.choice([(0,), (0, 1), (0, 255)])
        for _ in range(r.randrange(6, 18)):
            b = 1 if r.random() < 0.3 else 0
            its.append(r.choice([lambda: w.sps(ids=ids, bad=b), lambda: w.pps(ids=pids, bad=b), lambda: w.subset(ids=ids, bad=b, profiles=SVC),
                                 lambda: w.pps(ids=pids, force={'seq_parameter_set_id': list(ids)}),
                                 lambda: w.slice(), lambda: w.slice(), lambda: w.shise(), lambda: w.prefix(), lambda: w.other()])())
        sc.append(its)
    if c.round == 0:
        # every identifier there is
        small = {'vui_parameters_present_flag': [0], 'seq_scaling_matrix_present_flag': [0], 'frame_cropping_flag': [0], 'pic_order_cnt_type': [2]}
        its = [w.sps(ids=(i,), force=dict(small), crop=False, tape=40) for i in range(32)]
        its += [w.subset(ids=(i,), force=dict(small), profiles=SVC, tape=40) for i in range(32)]
        its += [w.pps(ids=(i,), force={'seq_parameter_set_id': [i % 32], 'num_slice_groups_minus1': [0], 'more_rbsp_data': [0]}, tape=40) for i in range(256)]
        r.shuffle(its)
        its += [f(force={'pic_parameter_set_id': [r.randrange(256)]}) for f in (w.slice, w.shise) for _ in range(30)]
        for g in generate([its]):
            s.append(w.nal_session(g['nals'], 'e', full=0.02)[:-1] + ['nal ef 31 09f0', 'S'])
    # one set replaced again and again: every profile after every other
    walk = [PROFILES[0]]
    left = {a: r.sample(PROFILES, len(PROFILES)) for a in PROFILES}
    while left[walk[-1]]:
        walk.append(left[walk[-1]].pop())
    plain = {'vui_parameters_present_flag': [0, 0, 0, 1], 'seq_scaling_matrix_present_flag': [0, 0, 1], 'frame_cropping_flag': [0, 1],
             'pic_order_cnt_type': [0, 2], 'seq_scaling_list_present_flag': [0, 0, 0, 0, 1]}
    again = []
    for i in range(0, len(walk), 40):
        its = []
        for a in walk[max(0, i - 1):i + 40]:
            its.append(r.choice([w.sps, w.sps, w.subset])(ids=(0,), force=dict(plain, profile_idc=[a])))
            if r.random() < 0.3:
                its.append(w.pps(ids=(0,), force={'seq_parameter_set_id': [0]}))
            if r.random() < 0.3:
                its.append(r.choice([w.slice, w.shise])())
        one = [w.sps(ids=(0,), force=dict(plain, profile_idc=[a])) for a in walk[max(0, i - 1):i + 40]]
        again += [its, one]
    for g in generate(again):
        s.append(w.nal_session(g['nals'], 'e', full=1.0))
    for g in generate(sc):
        nals = g['nals']
        s.append(w.nal_session(nals, 'e', full=1.0))
        s.append(w.nal_session(nals, 'e', mutate=0.3, full=1.0))
        # updates replayed out of order, repeated, truncated
        t = [r.choice(nals) for _ in range(len(nals))]
        t = [x[:r.randrange(len(x) + 1)] if r.random() < 0.2 else x for x in t]
        s.append(w.nal_session(t, 'e', full=1.0))
        s.append(w.buffer_session(nals, own=0.3))
    return s


def p_unimpl(c):
    w, r = c.w, c.r
    s = []
    sc = []
    for _ in range(c.n(150)):
        its = [w.sps(ids=(0,)), w.subset(ids=(0,), profiles=SVC), w.pps(ids=(0,), force={'seq_parameter_set_id': [0]})]
        for _ in range(10):
            its.append(r.choice([lambda: w.item(14, svc=0), lambda: w.item(20, svc=0), lambda: w.item(21, svc=r.randrange(2)),
                                 lambda: w.prefix(ref=r.randrange(1, 4), force={'idr_flag': [0]}),
                                 lambda: w.shise(ref=r.randrange(1, 4), force={'quality_id': [0], 'idr_flag': [0]}),
                                 lambda: w.slice(), lambda: w.other(), lambda: w.shise(bad=1)])())
        sc.append(its)
    for g in generate(sc):
        a = w.nal_session(g['nals'], 'e', mutate=0.1)
        b = w.buffer_session(g['nals'])
        for x in (a, b):
            o = []
            for cmd in x:
                o.append(cmd)
                if r.random() < 0.2:
                    o.append('abs')
                if r.random() < 0.05:
                    o.append('uc')
            s.append(['uc'] + o + ['abs'])
        if r.random() < 0.4:
            s.append(['uc'] + w.rtp_session(g['nals']) + ['abs'])
        if r.random() < 0.3:
            s.append(['uc', 'mt 4 3 ' + ' '.join(hexs(n) for n in g['nals']), 'abs'])
    if c.round == 0:
        # many of them
        for u in ('000001740055', '0000016e00747f', '0000017511000001090000017433', '0000014ee0000740ff', '00000109'):
            for k in (300, 66000):
                s.append(['uc', 'S', 'rep:%d ab i 0 %s' % (k, u), 'uc', 'S'])
    return s


def p_checksum(c):
    w, r = c.w, c.r
    cmds = []
    if c.round == 0:
        cmds += ['cs ' + hexs(b) for b in words([0, 1, 255], 6)]
        for n in range(0, 40):
            for x in (0, 255, 128, 127):
                cmds.append('cs ' + hexs(bytes([x] * n)))
    for _ in range(c.n(1500)):
        n = r.choice([r.randrange(0, 20), r.randrange(0, 200)])
        cmds.append('cs ' + hexs(bytes(r.choice([255, 255, 0, 254, r.randrange(256)]) for _ in range(n))))
    for _ in range(c.n(200)):
        # sums whose carries, folded back, carry again: k words of ones and a
        # few units more
        k = r.randrange(2, 12)
        ws = [0xffffffff] * k + [r.randrange(0, k + 2)]
        if r.random() < 0.5:
            x = r.getrandbits(32)
            ws[0:1] = [x, 0xffffffff - x]
        r.shuffle(ws)
        cmds.append('cs ' + hexs(b''.join(x.to_bytes(4, 'big') for x in ws) + bytes(r.randrange(4))))
        cmds.append('nal u 8 ' + hexs(b'\x0c' + b''.join(x.to_bytes(4, 'big') for x in ws)[1:]))
    for _ in range(c.n(200)):
        # from the middle
        n = r.randrange(1, 16)
        cmds.append('cs %s %d' % (hexs(bytes(r.choice([255, 0, r.randrange(256)]) for _ in range(n))), r.randrange(8 * n)))
    for n in (4096, 65536, 262144):
        cmds.append('cs ' + hexs(b'\xff' * n))
        cmds.append('cs ' + hexs(bytes(r.randrange(256) for _ in range(n + r.randrange(4)))))
    s = chop(cmds, 300)
    for nals in worlds(c, 60, 6):
        t = ['S']
        for n in nals:
            t.append('nal e %d %s' % (r.choice([8, 31, 0, 23]), hexs(n)))
            t.append('nal u 8 ' + hexs(n))
        s.append(t + ['S'])
        s.append(['S', 'ab f 8 ' + hexs(w.annexb(nals)), 'lf f 8 4 ' + hexs(w.lengths(nals, 4)), 'S'])
        # the same payload escaped and unescaped, extended, with zeros
        n = r.choice(nals)
        s.append(['S'] + ['nal e 8 ' + hexs(n + b'\0' * k) for k in range(9)] + ['S'])
    return s


def p_entry(c):
    """the same units through every entry point and under every option mask"""
    w, r = c.w, c.r
    s = []
    for i, nals in enumerate(worlds(c, 90, 5, bad=0.15)):
        if r.random() < 0.3:
            nals = [w.mutate(x) if r.random() < 0.2 else x for x in nals]
        ab = w.annexb(nals)
        s.append(w.nal_session(nals, 'e', full=1))
        # part by part
        s.append(w.nal_session(nals, r.choice(['ep', 'el']), full=1))
        s.append(w.nal_session(nals, 'el', full=0.5))
        # the same payloads under other nal_ref_idc
        other = [bytes([x[0] & 0x9f | r.choice([0, 0, 0x20, 0x60])]) + x[1:] if x and r.random() < 0.5 else x for x in nals]
        s.append(w.nal_session(other, r.choice(['epb', 'ep', 'e']), full=0.5))
        s.append(w.nal_session(other, 'epb', full=0.5))
        s.append(w.rtp_session(other, 0.2))
        s.append(['S', 'ab f %d %s' % (w.mask(), hexs(ab)), 'S'])
        s.append(['S', 'ab fi %d %s' % (w.mask(), hexs(ab)), 'S'])
        for n in (2, 4, 8):
            s.append(['S', 'lf f%s %d %d %s' % (r.choice(['', 'i']), w.mask(), n, hexs(w.lengths(nals, n))), 'S'])
        # unit by unit as buffers of their own
        s.append(['S'] + [r.choice(['ab f %d 000001%s', 'ab f %d 00000001%s', 'lf f %d 0 %s']) % (w.mask(), x.hex() or '00') for x in nals] + ['S'])
        if i % 8 == 0:
            s.append(['S'] + ['ab fi %d %s' % (m, hexs(ab)) for m in range(32)] + ['S'])
            s.append(['S'] + ['ab f %d %s' % (m, hexs(ab)) for m in (0, 31)] + ['S'])
            s.append(['S'] + ['lf f %d 4 %s' % (m, hexs(w.lengths(nals, 4))) for m in range(0, 32, 5)] + ['S'])
        if i % 4 == 0:
            s.append(['S'] + ['rtp f ' + hexs(x) for x in nals if x and x[0] & 31 <= 23] + ['S'])
            s.append([x.replace('rtp f ', 'rtp fp ') for x in w.rtp_session(nals, 0.2)])
    return s


def p_rtp(c):
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 140, 8, bad=0.1):
        s.append(w.rtp_session(nals, 0.0))
        s.append(w.rtp_session(nals, 0.5))
        s.append([x.replace('rtp f ', 'rtp fp ') for x in w.rtp_session(nals, 0.2)])
        if r.random() < 0.4:
            p = w.stap(nals[:4])
            s.append(['S'] + ['rtp f ' + hexs(p[:k]) for k in range(0, min(len(p), 80))] + ['S'])
    cmds = []
    if c.round == 0:
        for h in range(256):
            for x in ('', '00', 'ff', '80', '87', 'c7', '0000', '0001', '000109', '00020910', '85888000', '000109ff'):
                cmds.append('rtp f %02x%s' % (h, x))
        for b in words([0, 1, 2, 9], 6):
            cmds.append('rtp x 18' + b.hex())
        # large, and many
        u = lambda n: bytes([9]) + bytes(r.randrange(4, 256) for _ in range(n - 1))
        for ns in ((255, 256, 257), (32767, 3), (32768, 3), (40000, 300, 2), (65535, 2), (3,) * 400):
            p = w.stap([u(n) for n in ns])
            cmds += ['rtp x ' + hexs(p), 'rtp x ' + hexs(p[:-1])]
        cmds += ['rtp x ' + hexs(u(66000)), 'rtp x 7c89' + hexs(u(66000)), 'rtp x 7c09' + hexs(u(40000))]
    for _ in range(c.n(400)):
        b = bytes([r.choice([24, 28, 0x78, 0x7c, r.randrange(256)])]) + bytes(r.choice([0, 0, 1, 2, 3, 9, 0x67, 0x68, r.randrange(256)]) for _ in range(r.randrange(0, 20)))
        cmds.append('rtp f ' + hexs(b))
    return s + chop(cmds, 300)


def p_derived(c):
    w, r = c.w, c.r
    sc = []
    if c.round == 0:
        for prof in (66, 77, 88, 100, 110, 122, 144, 244, 44, 83, 86, 118, 0, 255):
            for cs in range(64):
                sc.append([w.sps(force=dict({'constraint_set%d_flag' % i: [(cs >> i) & 1] for i in range(6)}, profile_idc=[prof]))])
        for cf in range(4):
            for sep in (0, 1):
                for fmo in (0, 1):
                    for crop in (0, 1):
                        for _ in range(3):
                            sc.append([w.sps(force=dict(profile_idc=[r.choice(HIGH)], chroma_format_idc=[cf], separate_colour_plane_flag=[sep],
                                                        frame_mbs_only_flag=[fmo], frame_cropping_flag=[crop],
                                                        frame_crop_left_offset=[0, 1, 5], frame_crop_right_offset=[0, 1, 4],
                                                        frame_crop_top_offset=[0, 1, 6], frame_crop_bottom_offset=[0, 1, 7],
                                                        pic_width_in_mbs_minus1=[10, 21, 119, 1054, 1055],
                                                        pic_height_in_map_units_minus1=[8, 17, 67, 526]), crop=False)])
    t = dict(vui_parameters_present_flag=[1], timing_info_present_flag=[1], frame_cropping_flag=[0],
             num_units_in_tick=[1, 2, 1000, 1001, 3, 7, 999999, 1 << 30, 2147483647, -2147483648, -1],
             time_scale=[1, 2, 50, 60, 60000, 30000, 59, 999999, 1001, 1 << 30, 2147483647, -2147483648, -2147483647, -1, 16777217])
    sc += [[w.sps(force=dict(t), profiles=[66, 100])] for _ in range(c.n(80))]
    sc += [[w.sps(), w.subset()] for _ in range(c.n(250))]
    s = []
    for g in generate(sc):
        s.append(w.nal_session(g['nals'], full=0))
    # few, long sessions
    out = []
    for i in range(0, len(s), 40):
        m = []
        for x in s[i:i + 40]:
            m += x[:-1]
        out.append(m + ['S'])
    # the widths of elements that depend on parameter sets
    cmds = []
    if c.round == 0:
        cmds += ['wd %d 0 %d %d %d %d' % (a, b, a % 13, b % 13, (a + b) % 8) for a in range(40) for b in range(44)]
    for _ in range(c.n(300)):
        a, b = r.choice([(r.randrange(1056), r.randrange(132)), (r.randrange(40), r.randrange(40)), (0, r.randrange(139264))])
        n = (a + 1) * (b + 1)
        k = r.randrange(1, 18)
        rate = r.choice([n - 1, n - 2, n, (n // (2 ** k - 1) or 1) - 1, n // (2 ** k - 1), n // 2 ** k, r.randrange(n), 0, 1, 2147483646])
        cmds.append('wd %d %d %d %d %d %d' % (a, b, max(rate, 0), r.randrange(13), r.randrange(13), r.randrange(8)))
    out += chop(cmds, 300)
    return out


def p_isolation(c):
    """interleavings, repetitions and threads"""
    w, r = c.w, c.r
    s = []
    ws = worlds(c, 70, 8, bad=0.15)
    for i, nals in enumerate(ws):
        s.append(w.nal_session(nals, 'e', full=1.0))
        # another history first, in another session
        other = ws[(i + 1) % len(ws)]
        a = w.nal_session(other, 'e', mutate=0.2)
        b = w.nal_session(nals, 'e', full=1.0)
        s.append(a + b + a[1:] + b)
        # calls that keep to themselves in between
        t = ['S']
        for x in nals:
            t.append('nal ef 31 ' + hexs(x))
            k = r.randrange(5)
            if k == 0:
                t.append('ab fi 31 ' + hexs(w.annexb(other)))
            elif k == 1:
                t.append('lf fi 31 4 ' + hexs(w.lengths(other, 4)))
            elif k == 2:
                t.append('ix ' + hexs(w.annexb(other)))
                t.append('ty ' + hexs(x))
            elif k == 3:
                t.append('mt 2 2 ' + ' '.join(hexs(y) for y in other[:5]))
        s.append(t + ['S'])
        if i % 3 == 0:
            s.append(['S', 'mt 6 20 ' + ' '.join(hexs(y) for y in nals) + ' / ' + ' '.join(hexs(y) for y in other), 'S'])
    return s


def p_robust(c):
    """hostile bytes everywhere; whatever happens must be an answer"""
    w, r = c.w, c.r
    s = []
    ws = worlds(c, 60, 8, bad=0.3)
    for nals in ws:
        for _ in range(2):
            s.append(w.nal_session([w.mutate(w.mutate(x)) if r.random() < 0.7 else x for x in nals], r.choice('eu')))
        b = w.annexb(nals, True)
        for _ in range(2):
            b = w.mutate(b)
        s.append(['S', 'ab f 31 ' + hexs(b), 'ix ' + hexs(b), 'un ' + hexs(b), 'cs ' + hexs(b), 'S'])
        for n in (1, 2, 4, 8):
            b2 = w.mutate(w.lengths(nals, n, True))
            s.append(['S', 'lf f 31 %d %s' % (n, hexs(b2)), 'ex ' + hexs(b2), 'S'])
        s.append(w.rtp_session([w.mutate(x) for x in nals], 0.7))
        x = r.choice(nals)
        s.append(w.nal_session(nals[:4], 'e', full=0)[:-1] + ['nal e 31 ' + hexs(x[:k]) for k in range(min(len(x), 60))] + ['S'])
    cmds = []
    for _ in range(c.n(500)):
        t = r.choice([1, 5, 7, 8, 14, 15, 20, 0x65, 0x67, 0x68, 0x6f, 0x74, 0x6e, 24, 28, r.randrange(256)])
        k = r.choice([r.randrange(0, 12), r.randrange(0, 200)])
        st = r.randrange(4)
        b = bytes([t]) + bytes(r.choice([0, 255, 128, 1, r.randrange(256)]) if st == 0 else (255 if st == 1 else (0 if st == 2 else r.randrange(256)))
                               for _ in range(k))
        cmds += ['nal %s 31 %s' % (r.choice('eu'), hexs(b)), 'rtp x ' + hexs(b)]
        cmds.append('cs %s %d' % (hexs(b), r.randrange(8 * len(b))))
        cmds.append('rb %s %d' % (hexs(b), r.randrange(8 * len(b) + 1)))
    # lengths and counts that promise more than there is
    if c.round == 0:
        for n in range(0, 40):
            cmds.append('lf i 31 %d %s' % (n, 'ff' * 20))
            cmds.append('lf i 31 %d %s' % (n, '00' * 20 + '01'))
        for n in (1 << 31, 1 << 32, (1 << 63), (1 << 64) - 1, (1 << 64) - 4):
            cmds.append('lf i 31 %d 0000000167' % min(n, 2147483647))
        cmds += ['nal %s 31 -' % x for x in 'eu'] + ['ab i 31 -', 'lf i 31 4 -', 'lf i 31 0 -', 'rtp x -', 'un -', 'ix -', 'ex -', 'ty -', 'cs -']
        for what in ('hdr', 'sps', 'spsdata', 'vui', 'hrd', 'spx', 'pps', 'subset', 'svcext', 'rplm', 'pwt', 'drpm', 'slice'):
            cmds.append('one %s 0 0 0 0 -' % what)
            for b in ('ff' * 50, '00' * 50, '80' * 50, 'aa' * 50, '01'):
                cmds.append('one %s 1 1 1 1 %s' % (what, b))
    s += chop(cmds, 200)
    big = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(c.n(20000)))
    s.append(['S', 'ab f 31 ' + hexs(big), 'lf f 31 2 ' + hexs(big), 'nal e 31 67' + hexs(big), 'nal e 31 68' + hexs(big), 'S'])
    return s


def p_slow(c):
    """megabytes of the same: the time is in proportion to the size"""
    w, r = c.w, c.r
    if c.round:
        return []
    s = []
    for first in ('-', '67', '68', '65', '61', '6e80', '6f', '7480', '78', '7c85', '06', '67640028', '0980', '01e0'):
        for x in ('00', 'ff', '80', '0001', '000003', '00000109', '000000016742', '0002', '000109', '01', 'aa'):
            s.append(['slow %d %s %s' % (MB // (len(x) // 2 * (8 if x in ('00000109', '000109', '0001', '01') else 1)), first, x)])
    r.shuffle(s)
    s = s[:c.n(60)]
    for nals in worlds(c, 6, 4, bad=0.2):
        b = w.annexb(nals)
        s.append(['slow %d - %s' % (600000 // len(b), hexs(b))])
        s.append(['slow %d - %s' % (600000 // len(b), hexs(w.lengths(nals, 4)))])
    return [['S'] + x + ['S'] for x in s]


def p_range(c):
    """every bounded element at and around the ends of its range"""
    w, r = c.w, c.r
    s = []
    sc = sweep(w, ('sps', 'pps', 'slice', 'shise'))
    sub = []
    for it in sweep(w, ('sps',)):
        if r.random() < 0.25:
            for x in it:
                if x['t'] == 7:
                    x['t'] = 15
                    if x['force'].get('profile_idc', [0])[0] not in HIGH:
                        x['force']['profile_idc'] = [83]
            sub.append(it)
    bad = [[w.sps(bad=1)] for _ in range(c.n(120))] + [[w.pps(bad=1)] for _ in range(c.n(120))]
    for g in generate(sc + sub + bad):
        s.append(w.nal_session(g['nals'], 'e', full=0.1))
    return s


def p_threads(c):
    """many threads, many repetitions, no sanitizer in the way"""
    w, r = c.w, c.r
    s = []
    ws = worlds(c, 6, 6, bad=0.1)
    for i, nals in enumerate(ws):
        other = ws[(i + 1) % len(ws)]
        s.append(['uc', 'mt 8 300 ' + ' '.join(hexs(y) for y in nals) + ' / ' + ' '.join(hexs(y) for y in other), 'abs'])
    # nothing but reports
    for x in ('7400', '6e00', '7580', '7500', '7400 / 6e00 / 7500', '7400 7400 7400 / 7580'):
        s.append(['uc', 'mt 8 %d %s' % (c.n(20000), x), 'abs'])
    return s


def p_mixed(c):
    """threads that do everything there is to do"""
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 5, 6, bad=0.1):
        s.append(['S', 'mx 8 40 ' + ' '.join(hexs(y) for y in nals if y), 'abs'])
    return s


def p_race(c):
    """the same under the race detector"""
    w, r = c.w, c.r
    s = []
    for i, nals in enumerate(worlds(Ctx(c.seed, 1, c.round + 500), 8, 6, bad=0.1)):
        s.append(['S', 'mx 3 2 ' + ' '.join(hexs(y) for y in nals if y), 'abs'])
        s.append(['S', 'mt 3 2 ' + ' '.join(hexs(y) for y in nals), 'abs'])
    return s


def p_again(c):
    """inputs that lie where the last one lay, as long as it was, and differ in
    little: nothing may be remembered but what the state is for"""
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 60, 8, bad=0.1):
        t = ['S 1']
        for x in nals:
            fl = r.choice(['ef', 'ef', 'efd', 'ed'])
            y = bytearray(x)
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice([1, max(1, len(y) // 2), len(y) - 1, r.randrange(1, len(y))]) if len(y) > 1 else 0
                y[min(k, len(y) - 1)] ^= 1 << r.randrange(8)
            if r.random() < 0.3 and len(y) > 3:
                # the same bytes in another order: the same sum
                i, j = r.randrange(1, len(y)), r.randrange(1, len(y))
                y = bytearray(x)
                y[i], y[j] = y[j], y[i]
            three = [x, bytes(y), x] if r.random() < 0.7 else [bytes(y), x]
            t += ['nal %s %d %s' % (fl, r.choice([31, 31, r.randrange(32)]), hexs(z)) for z in three]
            k = r.randrange(8)
            if k == 0:
                t += ['un ' + hexs(z) for z in three]
            elif k == 1:
                t += ['cs ' + hexs(z) for z in three]
            elif k == 2:
                t += ['rtp x ' + hexs(z) for z in three]
            elif k == 3:
                t += ['ty ' + hexs(z) for z in three]
        b = w.annexb(nals)
        b2 = w.annexb([w.mutate(x) if r.random() < 0.3 else x for x in nals])
        n = min(len(b), len(b2))
        for z in (b, b2, b[:n], b2[:n], b):
            t += ['ab fi 31 ' + hexs(z), 'ix ' + hexs(z)]
        l = w.lengths(nals, 4)
        t += ['lf fi 31 4 ' + hexs(z) for z in (l, l[:-1], l)]
        # the same bytes with another state, which knows less
        t += ['S 1'] + ['nal ef 31 ' + hexs(x) for x in nals if r.random() < 0.5]
        t += ['S 1'] + ['nal ef 31 ' + hexs(x) for x in reversed(nals)]
        s.append(t + ['S'])
    return s


def dumped(sessions):
    """the same calls, rendered too"""
    out = []
    for s in sessions:
        t = []
        for cmd in s:
            p = cmd.split(' ')
            if p[0] in ('nal', 'ab', 'lf', 'rtp'):
                p[1] += 'd'
            t.append(' '.join(p))
        out.append(t)
    return out


def p_dump(c):
    """everything that can be rendered"""
    w, r = c.w, c.r
    s = []
    vui = {'vui_parameters_present_flag': [1], 'nal_hrd_parameters_present_flag': [1, 0], 'vcl_hrd_parameters_present_flag': [1, 0],
           'seq_scaling_list_present_flag': [0, 0, 1]}
    sc = [[w.sps(force=dict(vui) if r.random() < 0.5 else None), w.pps(), w.subset(force=dict(vui) if r.random() < 0.3 else None), w.prefix()]
          for _ in range(c.n(80))]
    # slices with everything in them
    for _ in range(c.n(90)):
        sc.append([w.sps(ids=None, force=RICH_SPS, crop=False), w.pps(ids=None, force=dict(RICH_PPS, num_slice_groups_minus1=[0, 1, 3])),
                   w.subset(ids=None, force=dict(RICH_SPS, profile_idc=[83, 86]))] +
                  [w.slice() for _ in range(2)] + [w.shise() for _ in range(3)] + [w.prefix(), w.slice(1, force={'slice_type': [r.randrange(10)]})])
    for _ in range(c.n(40)):
        sc.append(w.world(6, 0.1))
    for i, g in enumerate(generate(sc)):
        nals = g['nals']
        s.append(w.nal_session(nals, r.choice('eeu'), mutate=0.05, full=0))
        if i % 5 == 0:
            s.append(w.buffer_session(nals))
        if i % 4 == 0:
            s.append(w.rtp_session(nals, 0.1))
    # every option mask, every type
    if c.round == 0:
        s.append(['S'] + ['nal e %d 6742000aa6' % m for m in range(32)] + ['nal e %d 674200' % m for m in range(32)] + ['S'])
        s.append(['S'] + ['nal e 31 %02x%s' % (a, b) for a in range(256) for b in ('', '80', 'ff80a0ff80')] + ['S'])
        # wherever the unit is, however long
        ends = [x for k in (8, 16, 24, 28, 31, 32, 36, 40, 63) for x in (2**k - 1, 2**k)] + [2**64 - 1, 0, 0x12345678, 0x89abcdef01]
        s.append(['S'] + ['nal e 31 6742000aa6 %d %d %d' % (a, r.choice(ends), r.choice(ends)) for a in ends] +
                 ['nal e 31 09 %d %d %d' % (r.choice(ends), a, b) for a, b in zip(ends, ends[::-1])] + ['S'])
        s.append(['S'] + ['rtp x %02x%s' % (a, b) for a in range(0, 256) for b in ('80', 'ff80a0ff80', '850000')] + ['S'])
        for name, d in media():
            s.append(['S', 'ab x 31 ' + hexs(d[:20000]), 'ab x 0 ' + hexs(d[:20000]), 'S'])
    return dumped(s)


# ---------------------------------------------------------------- the tool
FLAGS = ['as-one-line', 'add-offset', 'add-length', 'add-parsed-length', 'add-checksum', 'add-resolution', 'add-contents']


def cli(args, data, src='file', to='stdout', **kw):
    return 'cli ' + json.dumps(dict(kw, args=args, d=data.hex(), **{'in': src, 'to': to}))


def cli_flags(r, k):
    out = []
    for _ in range(k):
        f = r.choice(FLAGS)
        out.append(['--' + ('no-' if r.random() < 0.3 else '') + f, ''])
    if r.random() < 0.1:
        out += [[r.choice(['-d', '--quiet', '--debug']), ''] for _ in range(r.choice([1, 1, 2, 4]))]
    r.shuffle(out)
    return out


def cli_how(r, data):
    src = 'stdin' if r.random() < 0.25 or not data else 'file'
    return dict(src=src, to=r.choice(['stdout', 'stdout', 'dash', 'file']), first=r.randrange(2), sep=r.randrange(2),
                dashed=int(r.random() < 0.15))


def framed(w, nals, args):
    """a file of these units, and the arguments to read it"""
    r = w.r
    if r.random() < 0.6:
        return w.annexb(nals, weird=r.random() < 0.2), args
    n = r.choice([0, 1, 2, 2, 3, 4, 4, 8, 9, 17, 40])
    if n == 0:
        return r.choice(nals), args + [['--nalu-length-bytes', '0']]
    return w.lengths(nals, n, weird=r.random() < 0.2), args + [['--nalu-length-bytes', str(n)]]


SIZES = (1, 2, 4, 511, 512, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000)


def of_size(r, n):
    """a stream of n bytes; the last unit ends with the last byte"""
    b = bytearray()
    while len(b) < n:
        k = min(n - len(b), r.choice([40, 300, 900]))
        b += (b'\0\0\1' + bytes([r.choice([1, 5, 6, 9, 12]) | 0x60]) + bytes(r.randrange(4, 256) for _ in range(k)))[:k]
    return bytes(b)


def cli_wide(c, base, flags, sizes=(70000, MB, MB + 4096, 16 * MB, 20 * MB)):
    """files of megabytes: zeros inside a unit that has no parser"""
    w, r = c.w, c.r
    s = []
    if c.round:
        return s
    for nals in worlds(c, 5, 3, bad=0.1):
        i = r.randrange(len(nals) + 1)
        x, z = nals[:i], nals[i:]
        y = bytes([r.choice([6, 9, 12, 0x62, 0x43, 4, 19])]) + bytes(r.randrange(4, 256) for _ in range(r.randrange(4)))
        n = r.choice([3, 4, 8])
        for i, count in enumerate(r.sample(list(sizes), 2)):
            for src in ('file', 'stdin'):
                args = base + flags(r)
                pre = w.annexb(x) + r.choice([b'\0\0\1', b'\0\0\0\1']) + y
                tail = w.annexb(z)
                # often one byte more than a number of blocks
                want = r.choice([0, 1, 1, 4095]) - len(pre) - 14 - len(tail) - count
                if r.random() < 0.7:
                    pre += b'\x55' * (want % 4)
                    count += (want - want % 4) % 4096
                s.append([cli(args, pre + bytes(12) + b'\1\x09' + tail, src=src, gap=[len(pre), count, 0, 0])])
                pre = w.lengths(x, n) + (len(y) + 8).to_bytes(n, 'big')
                if count < 2**(8 * n) - 100:
                    s.append([cli(args + [['--nalu-length-bytes', str(n)]], pre + y + bytes(8) + w.lengths(z, n), src=src,
                                  gap=[len(pre) + len(y), count, len(pre) - n, n])])
    return s


def p_cli_wide_status(c):
    return cli_wide(c, [], lambda r: [['--dump-length', '']] if r.random() < 0.5 else [])


def p_cli_wide_all(c):
    return cli_wide(c, [], lambda r: [[f, v] for f, v in cli_flags(r, 6) if 'contents' not in f and 'length-bytes' not in f])


def p_cli_wide_length(c):
    s = cli_wide(c, [['--dump-length', '']], lambda r: [['--frames-per-second', str(r.choice([1, 30, 60, 1000000]))]] if r.random() < 0.7 else [])
    if c.round == 0:
        # a frame of more than 2^31 bits
        for t in (0x62, 19):
            b = b'\0\0\1\x09\xf0\0\0\1' + bytes([t, 0x88]) + bytes(12) + b'\1\x09'
            s.append([cli([['--dump-length', '']], b, gap=[10, 300 * MB, 0, 0])])
    return s


def p_cli_status(c):
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 90, 4, bad=0.15):
        for _ in range(3):
            x = list(nals)
            k = r.randrange(7)
            if k == 0:
                x = [w.mutate(y) if r.random() < 0.3 else y for y in x]
            elif k == 1:
                x.insert(r.randrange(len(x) + 1), r.choice([b'\x74\x00', b'\x6e\x00', b'\x75\x80', b'\x75\x00', b'\x14', b'\x6e']))
            elif k == 2:
                # good ones only, as far as they go
                x = [y for y in x if y[0] & 31 in (7, 8)][:2]
            elif k == 3:
                x = x[r.randrange(len(x)):]
            elif k == 4:
                x = [y for y in x if y[0] & 31 not in (20, 14, 21)]
            b, args = framed(w, x or [b'\x09\x10'], [['--dump-length', '']] if r.random() < 0.7 else [])
            s.append([cli(args, b, **cli_how(r, b))])
    if c.round == 0:
        sps = bytes.fromhex('000000016742000aa6')
        for args in ([['--nalu-length-bytes', v]] for v in ('-1', 'x', '1x', '2147483648', '99999999999999999999', '-2147483649', '4294967300', '2147483647', '1e1')):
            s.append([cli(args, sps)])
        for args in ([['--frames-per-second', v]] for v in ('-1', 'x', '30fps', '2147483648', '99999999999999999999', '0', '2147483647')):
            s.append([cli([['--dump-length', '']] + args, sps)])
        for a in ('--nosuch', '-x', '--help', '-h', '--version'):
            s.append([cli([[a, '']], sps)])
            s.append([cli([['--dump-length', ''], [a, '']], sps)])
        s.append([cli([], sps, src='none')])
        for src in ('missing', 'file', 'stdin'):
            s.append([cli([], b'' if src != 'missing' else sps, src=src)])
        s.append([cli([], sps, to='bad')])
        for b in ('00', '000001', '00000001', '0000000167', '00000167', 'ff' * 9, '000001ff', '00000109', '000001080000010800000108', '0000010c', '00000160',
                  '00000174', '00000114', '0000016e00', '000001150000016742000aa6', '000001678000000167'):
            for args in ([], [['--nalu-length-bytes', '1']], [['--nalu-length-bytes', '0']], [['--nalu-length-bytes', '3']]):
                s.append([cli(args, bytes.fromhex(b))])
        for n in SIZES:
            b = of_size(r, n)
            s.append([cli([['--dump-length', '']], b, src=x) for x in ('file', 'stdin')])
            b = b'\0\0\1\x09\xf0' * (n // 5) + b'\0\0\1\x68\0'[-(n % 5):]
            s.append([cli([['--dump-length', '']], b, src=x) for x in ('file', 'stdin')])
        # many of a kind
        for k in (255, 256, 257, 512):
            for u in ('000001080f', '0000017400', '00000174', '000001'):
                s.append([cli([['--dump-length', '']], bytes.fromhex('00000109f0' + u * k + '0000010cff'))])
            s.append([cli([['--dump-length', ''], ['--nalu-length-bytes', '1']], bytes.fromhex('0209f0' + '02080f' * k))])
        for t in range(32):
            s.append([cli([], bytes([0, 0, 1, t | 0x60])), cli([], bytes([0, 0, 1, t])), cli([], bytes([0, 0, 1, t, 0xff, 0x80, 0x80, 0x80, 0x80]))])
        for name, d in media():
            if len(d) < 5000:
                for k in (len(d), 1000, 500, 100, 40, 30, 20):
                    s.append([cli([['--dump-length', '']], d[:k])])
    return s


def p_cli_all(c):
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 70, 4, bad=0.1):
        for _ in range(3):
            b, args = framed(w, nals, cli_flags(r, r.randrange(0, 7)))
            s.append([cli(args, b, **cli_how(r, b))])
    if c.round == 0:
        b = bytes.fromhex('000000016742000aa600000168ce388000000109f0')
        # every set of flags
        for m in range(128):
            s.append([cli([['--' + ('' if (m >> i) & 1 else 'no-') + f, ''] for i, f in enumerate(FLAGS)], b)])
        for i, f in enumerate(FLAGS):
            s.append([cli([['--' + f, '']], b), cli([['--no-' + f, '']], b), cli([['--' + f, ''], ['--no-' + f, '']], b),
                      cli([['--no-' + f, ''], ['--' + f, '']], b), cli([['--dump-length', ''], ['--dump-all', ''], ['--' + f, '']], b)])
        # contents of every length
        for n in range(0, 70):
            u = bytes([9]) + bytes((7 * k + n) % 251 + 4 for k in range(n))
            s.append([cli([['--add-contents', '']], b'\0\0\1' + u + b'\0\0\0\1' + u[:5]),
                      cli([['--add-contents', ''], ['--nalu-length-bytes', '2'], ['--no-as-one-line', '']], w.lengths([u, u[:3]], 2))])
        for n in SIZES:
            b = of_size(r, n)
            s.append([cli([['--add-contents', '']], b, src=x, to=t) for x in ('file', 'stdin') for t in ('stdout', 'file')])
        for n in (255, 256, 257, 1023, 1024, 1025, 4096, 5000):
            u = bytes([9]) + bytes(r.randrange(4, 256) for _ in range(n - 1))
            s.append([cli([['--add-contents', ''], ['--add-offset', ''], ['--add-length', '']], b'\0\0\1' + u + b'\0\0\0\1' + u[:5]),
                      cli([['--add-contents', ''], ['--no-as-one-line', '']], b'\0\0\1' + u[:5] + b'\0\0\1' + u)])
        for k in range(1, 5):
            for f in ('as-one-line', 'no-as-one-line', 'dump-length'):
                s.append([cli([['--' + f, '']] + [['-d', '']] * k, b'\0\0\1' + u[:5] + b'\0\0\1' + u, to=x, dashed=y) for x in ('stdout', 'file', 'dash') for y in (0, 1)])
        s.append([cli([['--add-offset', ''], ['--add-length', ''], ['--add-checksum', '']], far(r, t=(9, 12, 6)), src=x) for x in ('file', 'stdin')])
        for name, d in media():
            if len(d) < 5000:
                s.append([cli(cli_flags(r, 5), d), cli([['--no-as-one-line', ''], ['--add-contents', '']], d)])
    return s


def p_cli_length(c):
    w, r = c.w, c.r
    s = []
    sc = []
    for _ in range(c.n(70)):
        its = [w.sps(ids=(0,), force={'frame_mbs_only_flag': [1]}), w.pps(ids=(0,), force={'seq_parameter_set_id': [0]}),
               w.subset(ids=(0,), profiles=SVC)]
        for _ in range(r.randrange(2, 12)):
            k = r.randrange(8)
            if k < 5:
                its.append(w.slice(force={'first_mb_in_slice': r.choice([[0], [0], [1, 2, 99], [0, 7], [36863, 36864]])}))
            elif k == 5:
                its.append(w.other())
            elif k == 6:
                its.append(w.shise())
            else:
                its.append(r.choice([w.prefix, w.sps, w.pps])())
        sc.append(its)
    for g in generate(sc):
        nals = list(g['nals'])
        for _ in range(3):
            x = list(nals)
            for _ in range(r.randrange(0, 5)):
                t = r.choice([1, 2, 3, 4, 5, 6, 9, 12, 19, 20, 21, 24, 31, 0, r.randrange(32)])
                u = bytes([t | 32 * r.randrange(4)]) + bytes(r.randrange(4, 256) for _ in range(r.choice([0, 1, 5, 40])))
                x.insert(r.randrange(len(x) + 1), u)
            if r.random() < 0.3:
                x = [y + bytes(r.randrange(4, 256) for _ in range(r.choice([10, 300, 3000]))) for y in x]
            args = [['--dump-length', '']] + cli_flags(r, r.randrange(0, 3))
            if r.random() < 0.5:
                args.append(['--frames-per-second', str(r.choice([0, 1, 24, 25, 60, 120, 1000, 1000000, 2147483647]))])
            r.shuffle(args)
            b, args = framed(w, x, args)
            s.append([cli(args, b, **cli_how(r, b))])
    if c.round == 0:
        for t in range(32):
            s.append([cli([['--dump-length', '']], bytes([0, 0, 1, t | 0x60, 0x88, 0x84, 0xff, 0, 0, 1, t, 0x99, 0xaa, 0xff]))])
        for n in SIZES:
            b = of_size(r, n)
            s.append([cli([['--dump-length', '']], b, src=x) for x in ('file', 'stdin')])
        # large frames; many frames
        for fps in ('30', '8200', '65535', '2147483647'):
            s.append([cli([['--dump-length', ''], ['--frames-per-second', fps]], far(r, t=(1, 5, 2)), src='file')])
        s.append([cli([['--dump-length', '']], b''.join(bytes([0, 0, 1, r.choice([1, 5, 2, 3, 9, 6]), 0x88, i % 251 + 4]) for i in range(900)))])
        for name, d in media():
            s.append([cli([['--dump-length', '']], d[:20000], src=x) for x in ('file', 'stdin')])
    return s


def p_types(c):
    if c.round:
        return []
    return [['S'] + ['nt %d' % t for t in list(range(0, 80)) + [127, 128, 255, 256, 65535, 2147483647, 2147483648, 4294967295]]]


# ---------------------------------------------------------------- scripts
def sized(w, sizes, vui=False):
    r = w.r
    f = {'frame_cropping_flag': [0], 'frame_mbs_only_flag': [1], 'seq_scaling_matrix_present_flag': [0],
         'pic_width_in_mbs_minus1': [r.choice(sizes)], 'pic_height_in_map_units_minus1': [r.choice(sizes)], 'vui_parameters_present_flag': [0]}
    if vui:
        f.update({'vui_parameters_present_flag': [1], 'aspect_ratio_info_present_flag': [1], 'aspect_ratio_idc': [255, 1],
                  'sar_width': [16, 32, 1], 'sar_height': [16, 9]})
    return w.sps(force=f, profiles=[66, 77, 100], crop=False)


def p_split(c):
    w, r = c.w, c.r
    s, sc = [], []
    for _ in range(c.n(110)):
        its = []
        for _ in range(r.randrange(1, 12)):
            k = r.randrange(10)
            if k < 5:
                its.append(sized(w, r.choice([[0], [0, 1], [3, 10]]), vui=r.random() < 0.4))
            elif k == 5:
                its.append(w.sps())
            elif k == 6:
                its.append(w.subset(profiles=SVC))
            else:
                its.append(w.item(r.choice([9, 6, 12, 1, 8]) if k > 8 else r.choice([9, 6, 12])))
        sc.append(its)
    for g in generate(sc):
        nals = g['nals']
        b = w.annexb(nals, weird=r.random() < 0.1)
        if r.random() < 0.1:
            b = w.mutate(b)
        s.append(['split ' + json.dumps({'d': b.hex(), 'in': 'file', 'base': r.choice(['foo', 'a.b', 'x', 'foo.01']), 'ext': r.choice(['.264', '.h264', '']),
                                         'more': r.choice([[], ['-d'], ['-d', '-d']])})])
    if c.round == 0:
        for k in (13, 104):
            many = generate([[sized(w, [i % 2]) for i in range(k)]])[0]['nals']
            s.append(['split ' + json.dumps({'d': w.annexb(many).hex(), 'in': 'file', 'base': 'many', 'ext': '.264'})])
        # far into the file
        fill = lambda n: bytes([12]) + bytes(r.randrange(4, 256) for _ in range(n))
        s.append(['split ' + json.dumps({'d': w.annexb([many[0], fill(65500), many[1], fill(70000), many[2], fill(9)]).hex(), 'in': 'file', 'base': 'far', 'ext': '.264'})])
        for b, how in ((b'', 'file'), (b'\0\0\1', 'missing'), (b'abc', 'file')):
            s.append(['split ' + json.dumps({'d': b.hex(), 'in': how, 'base': 'foo', 'ext': '.264'})])
    for x in s:
        # a file name with an extension in its base has that one split off
        for j, cmd in enumerate(x):
            k = json.loads(cmd[6:])
            if k['ext'] == '' and '.' in k['base']:
                k['base'] = 'plain'
                x[j] = 'split ' + json.dumps(k)
    return s


def p_summary(c):
    w, r = c.w, c.r
    s = []
    ws = worlds(c, 120, 5, bad=0.1)
    lv = []
    for _ in range(c.n(60)):
        lv.append([w.sps(force={'level_idc': [r.choice([9, 10, 11, 11, 12, 13, 20, 40, 51, 255])], 'constraint_set3_flag': [r.randrange(2)],
                                'profile_idc': [r.choice([66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138])]}) for _ in range(r.randrange(1, 4))]
                  + [w.subset(), w.pps(), w.slice()])
    ws += [g['nals'] for g in generate(lv)]
    r.shuffle(ws)
    while ws:
        part, ws = ws[:r.randrange(1, 5)], ws[4:]
        files = []
        for j, nals in enumerate(part):
            if r.random() < 0.3:
                nals = [y for y in nals if y[0] & 31 in (7, 8)][:3] or nals
            b = w.annexb(nals)
            if r.random() < 0.15:
                b = w.mutate(b)
            files.append({'dir': r.choice(['suite', 'a b', 'x,y']), 'name': '%s%d.264' % (r.choice(['f', 'g h', 'q,r']), j), 'd': b.hex()})
            if r.random() < 0.03:
                files[-1]['missing'] = 1
        s.append(['sum ' + json.dumps({'files': files, 'q': r.randrange(2), 'o': r.randrange(2), 'dirs': int(r.random() < 0.2)})])
    return s


# ---------------------------------------------------------------- the small build
def p_small(c):
    """a bit of everything"""
    w, r = c.w, c.r
    s = []
    for nals in worlds(c, 120, 6, bad=0.15):
        s.append(w.nal_session(nals, 'e', full=0.3))
        s.append(w.nal_session(nals, r.choice('eu'), mutate=0.4))
        s.append(w.buffer_session(nals))
    s += structure(c, lambda b: [w.sps(bad=b), w.subset(bad=b), w.pps(bad=b), w.prefix(), w.slice(), w.shise()], 80, (), mut=2)
    sc = sweep(w, ('sps', 'pps', 'slice', 'shise'))
    r.shuffle(sc)
    s += [w.nal_session(g['nals'], 'e', full=0.1) for g in generate(sc[:c.n(400)])]
    for cmds in (p_unimpl, p_checksum, p_annexb, p_length, p_spx):
        x = cmds(Ctx(c.seed, 0.15, c.round + 1000, 'quick'))
        s += [[y for y in q if not y.startswith('rtp')] for q in r.sample(x, min(len(x), 25))]
    return s


def p_small_cli(c):
    # this build writes nothing, so whether -o can be written does not matter
    x = p_cli_status(Ctx(c.seed, 0.4, c.round, 'quick'))
    return [q for q in ([y for y in q if '"to": "bad"' not in y] for q in x) if q]


# ---------------------------------------------------------------- all histories
def corpus(c):
    """a few units that get in each other's way"""
    w, r = c.w, c.r
    pf = dict(num_slice_groups_minus1=[0, 1], slice_group_map_type=[0, 2, 3, 4, 5, 1])
    small = lambda: {'vui_parameters_present_flag': [0], 'seq_scaling_matrix_present_flag': [0], 'frame_mbs_only_flag': [r.randrange(2)],
                     'log2_max_frame_num_minus4': [r.randrange(13)], 'pic_order_cnt_type': [r.randrange(3)], 'frame_cropping_flag': [0]}
    sps = lambda i: w.sps(ids=(i,), force=small(), profiles=[66, 77, 100, 244], crop=False)
    sub = lambda i: w.subset(ids=(i,), force=small(), profiles=SVC)
    pps = lambda i, s: w.pps(ids=(i,), force=dict(pf, seq_parameter_set_id=[s]))
    its = [sps(0), sps(0), sps(1), sub(0), pps(0, 0), pps(0, 1), pps(1, 0),
           w.slice(5, force={'pic_parameter_set_id': [0]}), w.slice(1, ref=1, force={'pic_parameter_set_id': [1]}),
           w.shise(force={'pic_parameter_set_id': [0]}, ref=r.randrange(4)),
           w.prefix(ref=r.randrange(4)), w.other(r.choice([6, 9, 12, 13]))]
    if c.tier == 'thorough':
        its += [sub(0), pps(1, 1), w.slice(1, ref=0, force={'pic_parameter_set_id': [0]}), w.shise(force={'pic_parameter_set_id': [1]})]
    nals = generate([its])[0]['nals']
    # a parameter set cut short
    nals.append(nals[0][:r.randrange(2, max(3, len(nals[0]) - 1))])
    return nals


ROUTE = {'nal': 'nal ef 31 %s', 'raw': 'nal uf 31 %s', 'ab': 'ab f 31 00000001%s', 'own': 'ab fi 31 000001%s', 'rtp': 'rtp f %s'}


def p_histories(c):
    """every state of MCSession over this corpus, and from it every unit by
    some route"""
    r = c.r
    nals = corpus(c)
    path = vt.fresh('.corpus')
    with open(path, 'w') as f:
        for n in nals:
            f.write(json.dumps({'d': list(n)}) + '\n')
    txt = vt.model('MCSession', 'MCSession', env={'CORPUS': path}, text=True)
    hists = [json.loads(json.loads('"' + x + '"')[5:]) for x in re.findall(r'^"(HIST .*)"$', txt, re.M)]
    s = []
    todo = [(h, u) for h in hists for u in range(len(nals))]
    if c.tier != 'thorough' and len(todo) > 1600:
        todo = r.sample(todo, 1600)
    for h, u in todo:
        t = ['S'] + ['nal e 31 ' + hexs(nals[i - 1]) for i in h]
        k = r.choice(['nal', 'raw', 'ab', 'own', 'lf', 'rtp', 'stap'])
        n = nals[u]
        if k == 'raw':
            t.append('nal uf 31 ' + hexs(n.replace(b'\0\0\3', b'\0\0')))
        elif k == 'lf':
            t.append('lf f 31 4 %s' % hexs(len(n).to_bytes(4, 'big') + n))
        elif k == 'stap':
            t.append('rtp f 18' + (len(n).to_bytes(2, 'big') + n).hex())
        else:
            t.append(ROUTE[k] % n.hex())
        s.append(t + ['S'])
    return s


# ---------------------------------------------------------------- reference pictures
def pictures(c, n, m, depth):
    """behaviours of MCDpb: streams of pictures the standard allows"""
    txt = vt.model('MCDpbRandom', 'MCDpb', env={'DPB_M': str(m), 'DPB_DEPTH': str(depth)}, text=True, workers=1,
                   args=('-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(c.r.randrange(1 << 30))))
    return [json.loads(json.loads('"' + x + '"')[5:]) for x in re.findall(r'^"(PICS .*)"$', txt, re.M)]


def picture(w, p, actives):
    """the slices of a picture"""
    r = w.r
    d, m = 'dec_ref_pic_marking.', 'ref_pic_list_modification.'
    take = lambda ops, kinds, k: [o[k] for o in ops if o[kinds[0]] in kinds[1]]
    ops, mod = p['ops'], p['mod']
    f = {'slice_type': [p['type']], 'frame_num': [p['fn']], 'first_mb_in_slice': [0], 'field_pic_flag': [0],
         'long_term_reference_flag': [int(p['lt'])], 'adaptive_ref_pic_marking_mode_flag': [int(bool(ops))],
         'ref_pic_list_modification_flag_l0': [int(bool(mod))],
         '=' + d + 'memory_management_control_operation': [o['op'] for o in ops],
         '=' + d + 'difference_of_pic_nums_minus1': take(ops, ('op', (1, 3)), 'd'),
         '=' + d + 'long_term_pic_num': take(ops, ('op', (2,)), 'pn'),
         '=' + d + 'long_term_frame_idx': take(ops, ('op', (3, 6)), 'idx'),
         '=' + d + 'max_long_term_frame_idx_plus1': take(ops, ('op', (4,)), 'max')}
    if p['type'] % 5 != 1:
        f.update({'=' + m + 'modification_of_pic_nums_idc': [o['idc'] for o in mod],
                  '=' + m + 'abs_diff_pic_num_minus1': take(mod, ('idc', (0, 1)), 'v'),
                  '=' + m + 'long_term_pic_num': take(mod, ('idc', (2,)), 'v')})
    else:
        # not compared; anything that ends
        l0, l1 = r.randrange(2), r.randrange(2)
        q = [[r.randrange(3), 3] for _ in range(l0 + l1)]
        f.update({'ref_pic_list_modification_flag_l0': [l0], 'ref_pic_list_modification_flag_l1': [l1],
                  '=' + m + 'modification_of_pic_nums_idc': sum(q, [])})
    same = [i for i, a in enumerate(actives) if a == p['active']]
    if same and r.random() < 0.7:
        f.update(pic_parameter_set_id=[r.choice(same)], num_ref_idx_active_override_flag=[0])
    else:
        f.update(pic_parameter_set_id=[r.randrange(len(actives))], num_ref_idx_active_override_flag=[1],
                 num_ref_idx_l0_active_minus1=[p['active'] - 1])
    t = 5 if p['idr'] else 1
    out = [w.slice(t, ref=p['ref'], force=f, tape=40, tail=r.choice([4, 9, 20]))]
    while r.random() < 0.2:
        out.append(w.slice(t, ref=p['ref'], force=dict(f, first_mb_in_slice=[r.randrange(1, 90)]), tape=40, tail=5))
    return out


def p_dpb(c):
    w, r = c.w, c.r
    sc, s = [], []
    for m, depth, n in ((16, 40, 24), (32, 80, 8), (64, 150, 2)):
        for g in pictures(c, c.n(n), m, depth):
            actives = [r.randrange(1, 5) for _ in range(r.randrange(1, 4))]
            its = [w.sps(ids=(0,), profiles=[66, 77, 88, 100], crop=False, force={'frame_cropping_flag': [0], 'frame_mbs_only_flag': [r.randrange(2)], 'log2_max_frame_num_minus4': [m.bit_length() - 5],
                         'max_num_ref_frames': [g['max']], 'gaps_in_frame_num_value_allowed_flag': [0]})]
            its += [w.pps(ids=(i,), force={'seq_parameter_set_id': [0], 'num_ref_idx_l0_default_active_minus1': [a - 1],
                                           'num_slice_groups_minus1': [0], 'weighted_pred_flag': [0], 'weighted_bipred_idc': [0]})
                    for i, a in enumerate(actives)]
            for p in g['pics']:
                if r.random() < 0.1:
                    its.append(w.other(r.choice([6, 9, 12])))
                its += picture(w, p, actives)
            sc.append(its)
    for g in generate(sc):
        if not all(g['ok']):
            continue
        s.append(['dpb ' + json.dumps({'d': w.annexb(g['nals']).hex(), 'o': r.randrange(2)})])
    return s
