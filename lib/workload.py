"""Scenario and command-stream builders (inputs only, no expectations)."""
import itertools
import os
import random

from vt import REPO, generate

HIGH = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]
PROFILES = HIGH + [66, 77, 88, 144, 0, 255, 103]
SVC = [83, 86]


def hexs(b):
    return bytes(b).hex() or '-'


class W:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.big = False

    # ---- items of a scenario ------------------------------------------
    def item(self, t, ref=None, force=None, bad=0, svc=1, tail=None, tape=120):
        r = self.r
        return dict(t=t, ref=r.randrange(4) if ref is None else ref, force=force or {}, bad=bad, svc=svc,
                    wild=int(r.random() < 0.75),
                    tail=r.choice([0, 1, 2, 5, 9, 20]) if tail is None else tail,
                    tape=[r.randrange(1 << 30) for _ in range(tape)])

    def crop(self, f):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            small = [0, 1, 2, 3]
        elif k == 3:
            # around the limit: a picture of one or two macroblocks
            f.setdefault('pic_width_in_mbs_minus1', [0, 1])
            f.setdefault('pic_height_in_map_units_minus1', [0, 1])
            small = [0, 3, 4, 7, 8, 15, 16]
        elif k == 4:
            small = [0, 100, 8439, 8440, 16879]
        else:
            return f
        for n in ('left', 'right', 'top', 'bottom'):
            f.setdefault('frame_crop_%s_offset' % n, small)
        return f

    def sps(self, ids=(0, 1), force=None, bad=0, profiles=None, crop=True, **kw):
        f = {'profile_idc': [self.r.choice(profiles or PROFILES)]}
        if ids is not None:
            f['seq_parameter_set_id'] = list(ids)
        f.update(force or {})
        if crop:
            self.crop(f)
        return self.item(7, force=f, bad=bad, **kw)

    def subset(self, ids=(0, 1), force=None, bad=0, profiles=None, **kw):
        f = {'profile_idc': [self.r.choice(profiles or (SVC * 4 + PROFILES))]}
        if ids is not None:
            f['seq_parameter_set_id'] = list(ids)
        f.update(force or {})
        self.crop(f)
        return self.item(15, force=f, bad=bad, **kw)

    def pps(self, ids=(0, 1, 2), force=None, bad=0, **kw):
        f = {}
        if ids is not None:
            f['pic_parameter_set_id'] = list(ids)
        f.update(force or {})
        return self.item(8, force=f, bad=bad, **kw)

    def slice(self, t=None, force=None, bad=0, **kw):
        return self.item(t if t is not None else self.r.choice([1, 1, 5]), force=force, bad=bad, **kw)

    def shise(self, force=None, bad=0, **kw):
        f = dict(force or {})
        if self.r.random() < 0.7:
            f.setdefault('quality_id', [0])
        return self.item(20, force=f, bad=bad, **kw)

    def prefix(self, force=None, bad=0, **kw):
        return self.item(14, force=force, bad=bad, **kw)

    def other(self, t=None, **kw):
        return self.item(self.r.choice([x for x in range(32) if x not in (1, 5, 7, 8, 14, 15, 20)]) if t is None else t, **kw)

    def anything(self, bad=0):
        return self.r.choice([
            lambda: self.sps(bad=bad), lambda: self.pps(bad=bad), lambda: self.subset(bad=bad),
            lambda: self.slice(bad=bad), lambda: self.slice(bad=bad), lambda: self.shise(bad=bad),
            lambda: self.prefix(bad=bad), lambda: self.other(),
            lambda: self.item(self.r.choice([14, 20, 21]), svc=0)])()

    def world(self, n, bad=0.1):
        """parameter sets first, then anything"""
        b = lambda: 1 if self.r.random() < bad else 0
        its = [self.sps(bad=b()), self.pps(bad=b()), self.subset(profiles=SVC, bad=b()), self.pps(bad=b())]
        return its + [self.anything(b()) for _ in range(n)]

    # ---- bytes ---------------------------------------------------------
    def mutate(self, b):
        r = self.r
        b = bytearray(b)
        if not b:
            return bytes([r.randrange(256)])
        k = r.randrange(11)
        i = r.randrange(len(b))
        if k >= 8:
            return self.recut(b)
        if k <= 2:
            b[i] ^= 1 << r.randrange(8)
        elif k == 3:
            del b[i:]
        elif k == 4:
            b[i] = r.choice([0, 255, 3, 1, 128])
        elif k == 5:
            b[i:i] = bytes(r.choice([[0, 0, 3], [0, 0, 0], [0, 0, 1], [255], [0]]))
        elif k == 6:
            b += bytes([0] * r.randrange(1, 5))
        else:
            j = min(len(b), i + r.randrange(1, 5))
            for x in range(i, j):
                b[x] = r.randrange(256)
        return bytes(b)

    def recut(self, b, at=None):
        """the bits up to somewhere, and then: nothing, the trailing bits, or
        something else"""
        r = self.r
        raw, z = bytearray(), 0
        for x in b:
            if z >= 2 and x == 3:
                z = 0
                continue
            raw.append(x)
            z = z + 1 if x == 0 else 0
        bits = ''.join('{:08b}'.format(x) for x in raw)
        at = r.randrange(min(8, len(bits)), len(bits) + 1) if at is None else min(at, len(bits))
        out = bits[:at]
        k = r.randrange(6)
        if k <= 2:
            out += '1'
        elif k == 3:
            out += '1' * r.randrange(1, 300)
        elif k == 4:
            out += ''.join(r.choice(['1', '1', '010', '011', '00100', '0', '00110']) for _ in range(r.randrange(1, 60)))
        else:
            j = r.randrange(at, len(bits) + 1)
            out += r.choice(['', '0', '1', '1' * 8, '0' * 8]) + bits[j:]     # something left out, or put in
        out += '0' * (-len(out) % 8)
        raw = int('1' + out, 2).to_bytes(len(out) // 8 + 1, 'big')[1:]
        esc, z = bytearray(), 0
        for x in raw:
            if z == 2 and x <= 3:
                esc.append(3)
                z = 0
            esc.append(x)
            z = z + 1 if x == 0 else 0
        if z >= 1 and raw[-1] == 0 and r.random() < 0.5:
            esc.append(3)
        return bytes(esc)

    def annexb(self, nals, weird=False):
        r = self.r
        o = b''
        if weird and r.random() < 0.5:
            o += bytes(r.choice([0, 0, 1, 9]) for _ in range(r.randrange(6)))
        for n in nals:
            if weird:
                o += bytes([0] * r.choice([0, 0, 0, 1, 2, 3, 5]))
            o += r.choice([b'\0\0\1', b'\0\0\0\1']) + n
        if weird and r.random() < 0.5:
            o += bytes(r.choice([0, 0, 0, 1]) for _ in range(r.randrange(6)))
        return o

    def lengths(self, nals, n, weird=False):
        o = b''
        for x in nals:
            if n and n < 8 and len(x) >= 1 << (8 * n):
                x = x[:(1 << (8 * n)) - 1]
            o += len(x).to_bytes(n, 'big') + x if n else x
        if weird:
            k = self.r.randrange(4)
            if k == 0:
                o = o[:self.r.randrange(len(o) + 1)]
            elif k == 1:
                o += bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 6)))
            elif k == 2 and len(o) > 1:
                i = self.r.randrange(len(o))
                o = o[:i] + bytes([self.r.choice([0, 255, 1])]) + o[i + 1:]
        return o

    # ---- sessions --------------------------------------------------------
    def mask(self):
        return self.r.choice([0, 31, 31, self.r.randrange(32)])

    def nal_session(self, nals, fl='e', mutate=0.0, full=0.3):
        out = ['S']
        for n in nals:
            if self.r.random() < mutate:
                n = self.mutate(n)
            out.append('nal %s%s %d %s' % (fl, 'f' if self.r.random() < full else '', self.mask(), hexs(n)))
        return out + ['S']

    def buffer_session(self, nals, weird=0.3, own=0.3):
        r = self.r
        out = ['S']
        i = 0
        while i < len(nals):
            k = r.randrange(1, len(nals) - i + 1) if r.random() < 0.5 else len(nals) - i
            part = nals[i:i + k]
            fl = 'f' + ('i' if r.random() < own else '')
            if r.random() < 0.5:
                out.append('ab %s %d %s' % (fl, self.mask(), hexs(self.annexb(part, r.random() < weird))))
            else:
                n = r.choice([0, 1, 2, 2, 3, 4, 4, 4, 5, 8])
                out.append('lf %s %d %d %s' % (fl, self.mask(), n, hexs(self.lengths(part, n, r.random() < weird))))
            i += k
        return out + ['S']

    def stap(self, nals, weird=False):
        o = bytes([self.r.choice([24, 120, 56])])
        for n in nals:
            o += len(n).to_bytes(2, 'big') + n
        if weird:
            k = self.r.randrange(5)
            if k == 0:
                o = o[:self.r.randrange(1, len(o) + 1)]
            elif k == 1:
                o += bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 4)))
            elif k == 2:
                o = self.mutate(o)
            elif k == 3:
                o += b'\0\0'
        return o

    def fua(self, nal, first=True):
        """the fragments of a NAL unit"""
        r = self.r
        if len(nal) < 2:
            return [nal]
        body = nal[1:]
        cuts = sorted({0, len(body)} | {r.randrange(len(body)) for _ in range(r.randrange(3))})
        out = []
        for a, b in zip(cuts, cuts[1:]):
            s = 0x80 if a == 0 else 0
            e = 0x40 if b == len(body) else 0
            res = 0x20 if r.random() < 0.1 else 0
            out.append(bytes([(nal[0] & 0xe0) | 28, s | e | res | (nal[0] & 31)]) + body[a:b])
        return out

    def rtp_session(self, nals, weird=0.3):
        r = self.r
        out = ['S']
        i = 0
        while i < len(nals):
            k = r.randrange(4)
            if k <= 1:
                n = r.randrange(1, 4)
                out.append('rtp f ' + hexs(self.stap(nals[i:i + n], r.random() < weird)))
                i += n
                continue
            if k == 2:
                for p in self.fua(nals[i]):
                    out.append('rtp f ' + hexs(self.mutate(p) if r.random() < weird / 3 else p))
            else:
                p = nals[i]
                out.append('rtp f ' + hexs(self.mutate(p) if r.random() < weird / 2 else p))
            i += 1
        return out + ['S']


def media():
    d = os.path.join(REPO, 'media')
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.264'):
            out.append((f, open(os.path.join(d, f), 'rb').read()))
    return out


def split_annexb(b):
    """only used to cut real streams into inputs"""
    out = []
    pos = [i for i in range(len(b) - 3) if b[i] == 0 and b[i + 1] == 0 and b[i + 2] == 1]
    for k, p in enumerate(pos):
        e = pos[k + 1] if k + 1 < len(pos) else len(b)
        n = b[p + 3:e]
        while k + 1 < len(pos) and n and n[-1] == 0:
            n = n[:-1]
        out.append(n)
    return out


def words(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield bytes(w)


# bounded elements: (item builder, forces that make it present, name, values)
def sweep_table():
    on = lambda *n: {x: [1] for x in n}
    hi100 = {'profile_idc': [100]}
    vui = on('vui_parameters_present_flag')
    br = dict(vui, bitstream_restriction_flag=[1])
    T = []
    # what ends a list
    ends = {'modification_of_pic_nums_idc': [3], 'memory_management_control_operation': [0]}

    def add(kind, name, vals, **reach):
        for v in vals:
            T.append((kind, dict(reach, **{name: [v] + ends.get(name, [])})))

    def edge(hi):
        return [0, hi - 1, hi, hi + 1, hi + 2, hi + 100, 2147483647, -2]
    add('sps', 'profile_idc', PROFILES + [43, 99, 101, 111, 123, 245, 129, 136, 140])
    add('sps', 'seq_parameter_set_id', edge(31))
    add('sps', 'chroma_format_idc', edge(3), **hi100)
    add('sps', 'bit_depth_luma_minus8', edge(6), **hi100)
    add('sps', 'bit_depth_chroma_minus8', edge(6), **hi100)
    add('sps', 'delta_scale', [-129, -128, -127, 0, 127, 128, 2147483647, -2147483647], seq_scaling_matrix_present_flag=[1],
        seq_scaling_list_present_flag=[1], **hi100)
    add('sps', 'log2_max_frame_num_minus4', edge(12))
    add('sps', 'pic_order_cnt_type', edge(2))
    add('sps', 'log2_max_pic_order_cnt_lsb_minus4', edge(12), pic_order_cnt_type=[0])
    add('sps', 'num_ref_frames_in_pic_order_cnt_cycle', edge(255), pic_order_cnt_type=[1])
    add('sps', 'offset_for_non_ref_pic', [-2147483647, 2147483647, -1, 1], pic_order_cnt_type=[1])
    add('sps', 'offset_for_top_to_bottom_field', [-2147483647, 2147483647, -1, 1], pic_order_cnt_type=[1])
    add('sps', 'max_num_ref_frames', edge(16))
    add('sps', 'pic_width_in_mbs_minus1', edge(1055) + [1054, 1056])
    for fmo in (0, 1):
        add('sps', 'pic_height_in_map_units_minus1', edge(1055) + [526, 527, 528], frame_mbs_only_flag=[fmo])
    for n in ('left', 'right', 'top', 'bottom'):
        z = {'frame_crop_%s_offset' % m: [0] for m in ('left', 'right', 'top', 'bottom') if m != n}
        for fmo in (0, 1):
            for c in (0, 1, 2, 3):
                z2 = dict(z, frame_cropping_flag=[1], pic_width_in_mbs_minus1=[1], pic_height_in_map_units_minus1=[1],
                          frame_mbs_only_flag=[fmo], chroma_format_idc=[c], separate_colour_plane_flag=[fmo], **hi100)
                add('sps', 'frame_crop_%s_offset' % n, [0, 7, 8, 15, 16, 17, 31, 32, 33, 2147483647, -2], **z2)
    # both offsets of an axis, and both axes: what is left is one crop unit, none, or less; sums of all sizes
    for fmo, c, sep in ((1, 1, 0), (0, 1, 0), (1, 2, 0), (0, 2, 0), (1, 3, 0), (0, 3, 1), (0, 0, 0)):
        ux = 1 if c in (0, 3) else 2
        uy = (2 if c == 1 else 1) * (2 - fmo)
        for mw, mh in ((0, 2), (3, 0), (119, 67), (1055, 1055), (40, 1055), (1055, 30)):
            lx, ly = 16 * (mw + 1) // ux, 16 * (2 - fmo) * (mh + 1) // uy
            for dx, dy in ((-1, -1), (0, -1), (-1, 0), (1, -1), (-1, 1)):
                sx, sy = lx + dx, ly + dy
                a, b = min(sx, 16880), min(sy, 16880)
                k = (mw + mh + dx + 3 * dy) % 3
                a, b = [(a, b), (sx // 2, sy // 3), (sx - a, sy - b)][k]
                T.append(('sps', dict(hi100, chroma_format_idc=[c], separate_colour_plane_flag=[sep], frame_mbs_only_flag=[fmo],
                                      pic_width_in_mbs_minus1=[mw], pic_height_in_map_units_minus1=[mh], frame_cropping_flag=[1],
                                      frame_crop_left_offset=[a], frame_crop_right_offset=[sx - a],
                                      frame_crop_top_offset=[b], frame_crop_bottom_offset=[sy - b])))
        for sx in (128, 256, 16384, 32768, 33760):
            for far in (0, 1):
                a = min(16880, sx)
                f = dict(hi100, chroma_format_idc=[c], separate_colour_plane_flag=[sep], frame_mbs_only_flag=[fmo],
                         pic_width_in_mbs_minus1=[20], pic_height_in_map_units_minus1=[20], frame_cropping_flag=[1])
                pair = [a, sx - a]
                zero = [0, 0]
                for n, v in zip(('left', 'right', 'top', 'bottom'), (pair + zero) if far else (zero + pair)):
                    f['frame_crop_%s_offset' % n] = [v]
                T.append(('sps', f))
    for n in ('chroma_sample_loc_type_top_field', 'chroma_sample_loc_type_bottom_field'):
        add('sps', n, edge(5), chroma_loc_info_present_flag=[1], **vui)
    for n in ('num_units_in_tick', 'time_scale'):
        add('sps', n, [0, 1, -1], timing_info_present_flag=[1], **vui)
    add('sps', 'aspect_ratio_idc', [0, 1, 16, 254, 255], aspect_ratio_info_present_flag=[1], **vui)
    for h in ('nal', 'vcl'):
        add('sps', 'cpb_cnt_minus1', edge(31), **dict(vui, **{h + '_hrd_parameters_present_flag': [1]}))
    for n in ('max_bytes_per_pic_denom', 'max_bits_per_mb_denom', 'log2_max_mv_length_horizontal',
              'log2_max_mv_length_vertical', 'max_num_reorder_frames', 'max_dec_frame_buffering'):
        add('sps', n, edge(16), **br)
    add('pps', 'pic_parameter_set_id', edge(255))
    add('pps', 'seq_parameter_set_id', edge(31))
    add('pps', 'num_slice_groups_minus1', edge(7))
    add('pps', 'slice_group_map_type', edge(6), num_slice_groups_minus1=[1, 2, 3, 7])
    for n in range(1, 8):
        add('pps', 'pic_size_in_map_units_minus1', [0, 1, 35], slice_group_map_type=[6], num_slice_groups_minus1=[n])
    add('pps', 'pic_size_in_map_units_minus1', [139263, 139264, 139265, 2147483647, -2], slice_group_map_type=[6],
        num_slice_groups_minus1=[1])
    for n in ('num_ref_idx_l0_default_active_minus1', 'num_ref_idx_l1_default_active_minus1'):
        add('pps', n, edge(31))
    for n in ('pic_init_qp_minus26', 'pic_init_qs_minus26', 'chroma_qp_index_offset'):
        add('pps', n, [-2147483647, -88, -27, -26, -13, -12, 0, 12, 13, 25, 26, 2147483647])
    add('pps', 'second_chroma_qp_index_offset', [-2147483647, -13, -12, 0, 12, 13, 2147483647], more_rbsp_data=[1])
    add('pps', 'delta_scale', [-129, -128, 127, 128, 2147483647], more_rbsp_data=[1], pic_scaling_matrix_present_flag=[1],
        pic_scaling_list_present_flag=[1], transform_8x8_mode_flag=[0, 1])
    for k in ('slice', 'shise'):
        add(k, 'first_mb_in_slice', edge(139263))
        add(k, 'slice_type', list(range(12)) + [2147483647, -2])
        add(k, 'pic_parameter_set_id', [0, 1, 2, 254, 255, 256, 257, 2147483647, -2])
        add(k, 'idr_pic_id', edge(65535), idr_flag=[1], t=5 if k == 'slice' else 20)
        add(k, 'redundant_pic_cnt', edge(127))
        for n in ('num_ref_idx_l0_active_minus1', 'num_ref_idx_l1_active_minus1'):
            for st in (0, 1):
                add(k, n, edge(31), num_ref_idx_active_override_flag=[1], slice_type=[st])
        add(k, 'modification_of_pic_nums_idc', [0, 1, 2, 3, 4, 5, 6, 7], ref_pic_list_modification_flag_l0=[1], slice_type=[0])
        for n in ('luma_log2_weight_denom', 'chroma_log2_weight_denom'):
            add(k, n, edge(7), slice_type=[0], no_inter_layer_pred_flag=[1])
        add(k, 'memory_management_control_operation', list(range(0, 9)), adaptive_ref_pic_marking_mode_flag=[1], ref=1)
        add(k, 'cabac_init_idc', edge(2), slice_type=[0])
        add(k, 'slice_qp_delta', [-2147483647, -88, -87, -86, -64, -63, -58, -57, -52, -51, 0, 51, 52, 57, 58, 63, 64, 87, 88, 2147483647])
        add(k, 'disable_deblocking_filter_idc', [0, 1, 2, 3, 4, 6, 7, 2147483647, -2])
    return T


# parameter sets that make everything a slice can carry present
RICH_SPS = {'profile_idc': [100], 'seq_parameter_set_id': [0], 'frame_cropping_flag': [0], 'vui_parameters_present_flag': [0],
            'seq_scaling_matrix_present_flag': [0], 'chroma_format_idc': [1, 1, 2, 3, 0], 'pic_order_cnt_type': [0, 0, 1]}
RICH_PPS = {'pic_parameter_set_id': [0], 'seq_parameter_set_id': [0], 'num_slice_groups_minus1': [0, 1],
            'slice_group_map_type': [3, 4, 5], 'redundant_pic_cnt_present_flag': [1], 'weighted_pred_flag': [1],
            'weighted_bipred_idc': [1], 'entropy_coding_mode_flag': [1], 'deblocking_filter_control_present_flag': [1],
            'more_rbsp_data': [0]}


def sweep(w, kinds, n=1):
    """one scenario per bounded element and edge value"""
    out = []
    for kind, force in sweep_table():
        if kind not in kinds:
            continue
        if force.get('pic_size_in_map_units_minus1') == [139263] and not w.big:
            continue   # a minute
        for wild in [1] * n + [0] * (w.r.random() < 0.3):
            force = dict(force)
            n0 = len(out)
            if kind == 'sps':
                f = {'vui_parameters_present_flag': [0, 0, 1]}
                f.update(force)
                out.append([w.sps(ids=None, force=f, crop=not any(x.startswith('frame_crop') for x in f), tail=30)])
                if w.r.random() < 0.3:
                    f2 = dict(f)
                    f2['profile_idc'] = f2.get('profile_idc') if f2.get('profile_idc', [0])[0] in HIGH else [83]
                    out.append([w.subset(ids=None, force=f2, tail=30)])
            elif kind == 'pps':
                out.append([w.pps(ids=None, force=force, tail=30)])
            elif kind == 'slice':
                t = force.pop('t', w.r.choice([1, 5]) if 'memory_management_control_operation' not in force else 1)
                ref = force.pop('ref', None)
                out.append([w.sps(ids=None, force=RICH_SPS, crop=False), w.pps(ids=None, force=RICH_PPS),
                            w.slice(t, force=force, ref=ref, tail=60)])
            elif kind == 'shise':
                force.pop('t', None)
                ref = force.pop('ref', None)
                f = {'quality_id': [0], 'idr_flag': [0]}
                f.update(force)
                out.append([w.subset(ids=None, force=dict(RICH_SPS, profile_idc=[83, 86])),
                            w.pps(ids=None, force=RICH_PPS), w.shise(force=f, ref=ref, tail=60)])
            for it in out[n0:]:
                it[-1]['wild'] = wild
    return out
