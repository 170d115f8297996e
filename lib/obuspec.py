"""The OBU syntax and constraints of the IAMF specification (v1.1 / v2 draft), written over the sequence of fields that was read.

Each grammar function consumes fields, states what must hold (`must`: refused otherwise), what may be refused (`may`), and what must be
refused before anything after it is read (`bound`)."""
from absval import *
from absval import T
import absx


class End(Exception):
    """No more fields were read."""


class Justified(Exception):
    """The refusal is explained."""


class Syntax(Exception):
    """The fields read are not those of the specification."""


MAX_OBU = 1 << 21


class G:
    def __init__(self, I, toks, mode):
        self.I, self.t, self.i, self.mode = I, list(toks), 0, mode
        self.broken = []       # musts that do not hold
        self.dubious = []      # mays that do not hold
        self.fields = []       # (name, value)
        self.at_end = 0        # bits consumed
        self.used = 0
        self.out = {}          # index of a field -> the value it is written with
        self.other = False     # the OBU is deliberately not written back as it was read
        self.flags = set()     # what is present

    def writes(self, v):
        """The field read last is written with value v."""
        self.out[self.i - 1] = v

    def sub(self, toks):
        g = G(self.I, toks, 'refused')
        g.used = self.used
        return g

    # -- fields --------------------------------------------------------------------------------
    def next(self, kind, what):
        if self.i >= len(self.t):
            raise End(what)
        t = self.t[self.i]
        while t.kind == 'bytes' and kind != 'bytes' and self.eq(t.v, 0):
            # no bytes at all
            self.i += 1
            if self.i >= len(self.t):
                raise End(what)
            t = self.t[self.i]
        if t.kind != kind:
            raise Syntax('%s: expected %s, the code reads %r' % (what, kind, t))
        self.i += 1
        self.used = add(self.used, t.size)
        return t

    def u(self, w, what=None, signed=False):
        t = self.next('bits', what or '%d bits' % w)
        if t.w > w:
            # a wider field was read: split it
            I = self.I
            r = t.w - w
            hi = I.iarith('>>', t.v, r, (64, False)) if not is_num(t.v) else t.v >> r
            lo = sub(t.v, scale(hi, 1 << r))
            import obux
            self.used = sub(self.used, r)
            self.t[self.i - 1] = obux.Tok('bits', w, hi, w)
            self.t.insert(self.i, obux.Tok('bits', r, lo, r))
            v = hi
        else:
            v, have = t.v, t.w
            if t.signed and not signed and w in (8, 16, 32) and t.w == w:
                v = self.I.wrap(v, (w, False))
            while have < w:
                t = self.next('bits', what or '%d bits' % w)
                if have + t.w > w:
                    raise Syntax('%s: the code reads fields of other widths' % what)
                v = add(scale(v, 1 << t.w), t.v)
                have += t.w
        if signed and not t.signed:
            v = self.I.wrap(v, (w, True)) if w in (8, 16, 32) else v
        if what:
            self.fields.append((what, v))
        return v

    def s(self, w, what=None):
        return self.u(w, what, True)

    def flag(self, what=None):
        return self.decide(self.I.rel('!=', self.u(1, what), 0))

    def leb(self, what=None):
        t = self.next('leb', what or 'a LEB128')
        if what:
            self.fields.append((what, t.v))
        return t.v

    def exp(self, what=None):
        return self.next('exp', what or 'an expandable size').v

    def string(self, what=None):
        t = self.next('str', what or 'a string')
        if what:
            self.fields.append((what, t.v))
        return t.v

    def bytes(self, n, what=None):
        I = self.I
        n = I.concrete(n)
        if n == 0 or (not is_num(n) and self.decide(I.rel('==', n, 0))):
            if self.i < len(self.t) and self.t[self.i].kind == 'bytes' and self.eq(self.t[self.i].v, 0):
                self.i += 1
            return
        if self.i < len(self.t) and self.t[self.i].kind == 'bits' and self.t[self.i].w == 8:
            import obux
            k = self.count(n, what or 'bytes')
            vs = [self.u(8) for _ in range(k)]
            t = obux.Tok('bytes', 0, k, 8 * k)
            t.vec = Vec('unsigned char', [Cell(v) for v in vs], k)
            if what:
                self.fields.append((what, t))
            return t
        t = self.next('bytes', what or 'bytes')
        if not self.eq(t.v, n):
            raise Syntax('%s: %s bytes are read instead of %s' % (what or 'bytes', show(t.v), show(n)))
        if what:
            self.fields.append((what, t))
        return t

    # -- conditions ----------------------------------------------------------------------------
    def decide(self, c, guess=None):
        return self.I.decide(c)

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        return self.decide(self.I.rel('==', a, b), False)

    def le(self, a, b):
        return self.decide(self.I.rel('<=', a, b), True)

    def lt(self, a, b):
        return self.decide(self.I.rel('<', a, b), True)

    def isin(self, a, vs):
        for v in vs:
            if self.eq(a, v):
                return True
        return False

    def must(self, ok, msg):
        if not ok:
            self.broken.append(msg)
            if self.mode == 'refused':
                raise Justified(msg)

    bound_broken = None
    no_room = False

    def bound(self, ok, msg):
        if not ok and self.i < len(self.t) and not self.bound_broken:
            self.bound_broken = msg
        self.must(ok, msg)

    def may(self, ok, msg):
        if not ok:
            self.dubious.append(msg)
            if self.mode == 'refused':
                raise Justified(msg)

    def count(self, n, what):
        """Concrete value of a repetition count; larger ones than are explored end the partition."""
        n = self.I.concrete(n)
        if is_num(n):
            return int(n)
        for k in range(0, 8):
            if self.eq(n, k):
                return k
        if self.mode == 'refused' and self.i >= len(self.t):
            # refused before the first of them is read: justified only when they cannot all fit
            e = End(what)
            e.need = scale(n, 2048)
            raise e
        raise absx.Cut('%s repeated more than 7 times' % what)


class Plan(G):
    """Follows the fields read so far without deciding anything, to name the field that comes next."""

    def decide(self, c, guess=False):
        if isinstance(c, B):
            t = self.I.facts.truth(c)
            return guess if t is None else t
        return bool(c)


    def count(self, n, what):
        # as many as the code has decided to read by now
        n = self.I.concrete(n)
        return int(n) if is_num(n) else min(int(self.I.facts.rng(n)[0]), 7)

def upcoming(I, kind, toks, env):
    g = Plan(I, toks, 'cut')
    env = dict(env)
    try:
        if not kind.part:
            header(g, env)
            env['end'] = add(g.used, env['payload_bits'])
            env['obu_type'] = g.fields[0][1]
        kind.grammar(g, env)
    except End as e:
        return str(e), [n for n, _ in g.fields].count(str(e))
    except (Justified, Syntax, Opaque, absx.Cut, IndexError, TypeError):
        pass
    return None, 0


# ---- header -------------------------------------------------------------------------------------
AUDIO = {5} | set(range(6, 24))
TD, PB, MP = 4, 3, 2


def header(g, env):
    t = g.u(5, 'obu_type')
    red = g.flag('obu_redundant_copy')
    spec = g.flag('type_specific_flag')
    ext = g.flag('obu_extension_flag')
    size = g.leb('obu_size')
    after = g.used
    total = add(after, scale(size, 8))
    g.bound(g.le(total, MAX_OBU * 8), 'OBUs are at most 2 MB')
    audio = g.le(5, t) and g.le(t, 23)
    nored = audio or g.isin(t, (TD, PB))
    if red:
        g.must(not nored, 'obu_redundant_copy is not allowed for this obu_type')
    if spec:
        g.must(audio or g.isin(t, (TD, MP)), 'the type specific flag is reserved for this obu_type')
    if audio and spec:
        g.leb('num_samples_to_trim_at_end')
        g.leb('num_samples_to_trim_at_start')
    n = None
    if ext:
        n = g.leb('extension_header_size')
        g.bound(g.le(add(g.used, scale(n, 8)), total), 'the extension header lies inside the OBU')
        g.bytes(n, 'extension_header_bytes')
    else:
        g.bound(g.le(g.used, total), 'the header fields lie inside the OBU')
    env['payload'] = None
    env['payload_bits'] = sub(total, g.used)


# ---- descriptors --------------------------------------------------------------------------------

def ia_sequence_header(g, env):
    code = g.u(32, 'ia_code')
    g.must(g.eq(code, 0x69616d66), 'ia_code is "iamf"')
    p = g.u(8, 'primary_profile')
    g.must(g.le(p, 5), 'the primary profile is known')
    g.u(8, 'additional_profile')


STREAMINFO = ((16, 'minimum_block_size'), (16, 'maximum_block_size'), (24, 'minimum_frame_size'), (24, 'maximum_frame_size'),
              (20, 'flac_sample_rate'), (3, 'number_of_channels'), (5, 'bits_per_sample'), (36, 'total_samples_in_stream'))


def codec_config(g, env):
    g.leb('codec_config_id')
    cid = g.u(32, 'codec_id')
    n = g.leb('num_samples_per_frame')
    g.must(not g.eq(n, 0), 'num_samples_per_frame is not 0')
    g.may(g.le(n, 96000), 'num_samples_per_frame is practical')
    roll = g.s(16, 'audio_roll_distance')
    if g.eq(cid, 0x4f707573):
        # roll distance of Opus: -ceil(3840 / num_samples_per_frame)
        I = g.I
        q = I.iarith('/', 3840, n, (32, False))
        m = I.iarith('%', 3840, n, (32, False))
        want = neg(q) if g.eq(m, 0) else sub(neg(q), 1)
        g.must(g.eq(roll, want), 'audio_roll_distance of Opus')
        v = g.u(8, 'version')
        g.u(8, 'output_channel_count')
        ch = g.fields[-1][1]
        g.u(16, 'pre_skip')
        g.u(32, 'input_sample_rate')
        gain = g.s(16, 'output_gain')
        fam = g.u(8, 'mapping_family')
        g.must(not g.eq(v, 0), 'the Opus version is not 0')
        g.must(g.le(v, 15), 'the major Opus version is 0')
        g.must(g.eq(ch, 2), 'output_channel_count is 2')
        g.must(g.eq(gain, 0), 'output_gain is 0')
        g.must(g.eq(fam, 0), 'mapping_family is 0')
    elif g.eq(cid, 0x6970636d):
        g.must(g.eq(roll, 0), 'audio_roll_distance of LPCM is 0')
        f = g.u(8, 'sample_format_flags')
        s = g.u(8, 'sample_size')
        r = g.u(32, 'sample_rate')
        g.must(g.le(f, 1), 'sample_format_flags is 0 or 1')
        g.must(g.isin(s, (16, 24, 32)), 'sample_size is 16, 24 or 32')
        g.must(g.isin(r, (16000, 32000, 44100, 48000, 96000)), 'the sample rate is allowed for LPCM')
    elif g.eq(cid, 0x664c6143):
        g.must(g.eq(roll, 0), 'audio_roll_distance of FLAC is 0')
        k = 0
        info = None
        while True:
            last = g.flag('last_metadata_block_flag')
            ty = g.u(7, 'block_type')
            ln = g.u(24, 'metadata_data_block_length')
            if g.eq(ty, 0):
                g.may(g.eq(ln, 34), 'a STREAMINFO block has 34 bytes')
                g.may(k == 0, 'only one STREAMINFO block')
                a = [g.u(w, nm) for w, nm in STREAMINFO]
                g.bytes(16, 'md5_signature')
                info = info or a
            else:
                g.must(k > 0, 'the first block is STREAMINFO')
                g.bound(g.le(ln, MAX_OBU), 'a FLAC block is at most as large as an OBU')
                g.bytes(ln)
            k += 1
            if last:
                break
        mn, mx, mnf, mxf, rate, ch, bps, total = info
        for (w, nm), v in zip(STREAMINFO, info):
            g.fields.append((nm, v))
        g.must(g.eq(mn, n), 'minimum_block_size is num_samples_per_frame')
        g.must(g.eq(mx, n), 'maximum_block_size is num_samples_per_frame')
        g.must(g.eq(ch, 1), 'number_of_channels is 1')
        g.must(g.isin(bps, (15, 23, 31)), 'bits per sample are 16, 24 or 32')
        g.must(g.isin(rate, (8000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000)), 'the sample rate is allowed for FLAC')
        env['flac'] = (mnf, mxf)
    elif g.eq(cid, 0x6d703461):
        tag = g.u(8, 'decoder_config_descriptor_tag')
        size = g.exp()
        start = g.used
        oti = g.u(8, 'object_type_indication')
        st = g.u(6, 'stream_type')
        up = g.u(1, 'upstream')
        res = g.u(1, 'reserved')
        g.u(24, 'buffer_size_db')
        g.u(32, 'max_bitrate')
        g.u(32, 'average_bit_rate')
        itag = g.u(8, 'decoder_specific_info_tag')
        isize = g.exp()
        istart = g.used
        aot = g.u(5, 'audio_object_type')
        sfi = g.u(4, 'sample_frequency_index')
        if g.eq(sfi, 15):
            g.may(False, 'an explicit sampling frequency is supported')
            g.u(24, 'sampling_frequency')
        else:
            g.must(not g.isin(sfi, (13, 14)), 'sample_frequency_index is not reserved')
        chc = g.u(4, 'channel_configuration')
        fl = g.u(1, 'frame_length_flag')
        dc = g.u(1, 'depends_on_core_coder')
        ef = g.u(1, 'extension_flag')
        want = add(istart, scale(isize, 8))
        g.must(g.le(g.used, want), 'decoder_specific_info fits its size')
        if not g.eq(g.used, want):
            m = I_div8(g, sub(want, g.used))
            g.bound(g.le(m, MAX_OBU), 'an extension is at most as large as an OBU')
            g.bytes(m)
        want = add(start, scale(size, 8))
        g.must(g.le(g.used, want), 'decoder_config fits its size')
        if not g.eq(g.used, want):
            m = I_div8(g, sub(want, g.used))
            g.bound(g.le(m, MAX_OBU), 'an extension is at most as large as an OBU')
            g.bytes(m)
        g.must(g.eq(roll, -1), 'audio_roll_distance of AAC is -1')
        g.must(g.eq(tag, 4), 'DecoderConfigDescriptor tag')
        g.must(g.eq(oti, 0x40), 'objectTypeIndication')
        g.must(g.eq(st, 5), 'streamType')
        g.must(g.eq(up, 0), 'upstream')
        g.must(g.eq(res, 1), 'reserved')
        g.must(g.eq(itag, 5), 'DecSpecificInfo tag')
        g.must(g.eq(aot, 2), 'audioObjectType')
        g.must(g.eq(chc, 2), 'channelConfiguration')
        g.must(g.eq(fl, 0), 'frameLengthFlag')
        g.must(g.eq(dc, 0), 'dependsOnCoreCoder')
        g.must(g.eq(ef, 0), 'extensionFlag')
    else:
        g.may(False, 'the codec_id is known')
        raise Syntax('an unknown codec_id is accepted')


def I_div8(g, v):
    if is_num(v):
        return v // 8
    d, c = parts(v)
    if all(k % 8 == 0 for k in d.values()):
        return mk({a: k // 8 for a, k in d.items()}, c // 8)
    return g.I.iarith('/', v, 8, (64, True))


# ---- data ---------------------------------------------------------------------------------------

def audio_frame(g, env):
    if g.eq(env['obu_type'], 5):
        g.leb('audio_substream_id')
    g.must(g.le(g.used, env['end']), 'the payload has room for the substream id')
    if not g.eq(g.used, env['end']):
        g.bytes(I_div8(g, sub(env['end'], g.used)), 'audio_frame')


def metadata(g, env):
    ty = g.leb('metadata_type')
    if g.eq(ty, 1):
        cc = g.u(8, 'itu_t_t35_country_code')
        if g.eq(cc, 0xff):
            g.u(8, 'itu_t_t35_country_code_extension_byte')
        g.must(g.le(g.used, env['end']), 'the payload has room for the country code')
        if not g.eq(g.used, env['end']):
            g.bytes(I_div8(g, sub(env['end'], g.used)), 'itu_t_t35_payload_bytes')
    elif g.eq(ty, 2):
        n = g.u(8, 'num_tags')
        for _ in range(g.count(n, 'tags')):
            g.string('tag_name')
            g.string('tag_value')


def obu_part(f):
    """A syntax structure on its own, without an OBU around it."""
    def grammar(g, env):
        f(g, env)
    return grammar


# ---- parameters ---------------------------------------------------------------------------------

MAX_SUBBLOCKS = 192000


def schedule(g, data=None):
    """The subblock schedule, with parameter data interlaced when it lies in the parameter block. Returns (duration, constant, number)."""
    I = g.I
    d = g.leb('duration')
    g.must(not g.eq(d, 0), 'the duration is not 0')
    c = g.leb('constant_subblock_duration')
    if g.eq(c, 0):
        n = g.leb('num_subblocks')
        g.bound(not g.eq(n, 0), 'there are subblocks')
        g.bound(g.le(n, MAX_SUBBLOCKS), 'there are at most 192000 subblocks')
        g.bound(g.le(n, d), 'there are at most as many subblocks as the duration has ticks')
        tot = 0
        for _ in range(g.count(n, 'subblocks')):
            x = g.leb('subblock_duration')
            g.must(not g.eq(x, 0), 'no subblock has duration 0')
            tot = add(tot, x)
            if g.mode == 'refused':
                g.must(g.le(tot, d), 'the subblock durations add up to the duration')
            if data:
                data(g)
        g.must(g.eq(tot, d), 'the subblock durations add up to the duration')
        return d, c, n
    g.must(g.le(c, d), 'the constant subblock duration is at most the duration')
    n = ceil_div(g, d, c)
    g.bound(g.le(n, MAX_SUBBLOCKS), 'there are at most 192000 subblocks')
    if data:
        for _ in range(g.count(n, 'subblocks')):
            data(g)
    return d, c, n


def ceil_div(g, d, c):
    I = g.I
    if g.eq(d, c):
        return 1
    q = I.iarith('/', d, c, (32, False))
    m = I.iarith('%', d, c, (32, False))
    return q if g.eq(m, 0) else I.wrap(add(q, 1), (32, False))


def param_definition(g, kind):
    """ParamDefinition of the given kind; returns what the parameter blocks need."""
    pid = g.leb('parameter_id')
    rate = g.leb('parameter_rate')
    mode = g.flag('param_definition_mode')
    g.u(7, 'param_definition_reserved')
    g.must(not g.eq(rate, 0), 'the parameter rate is not 0')
    if kind in ('demixing', 'recon_gain'):
        g.must(not mode, 'the schedule of %s parameters lies in the parameter definition' % kind.replace('_', ' '))
    d = c = n = None
    if not mode:
        d, c, n = schedule(g)
        if kind in ('demixing', 'recon_gain'):
            g.must(g.eq(d, c), 'demixing and recon gain parameters have one subblock')
    if kind == 'mix_gain':
        g.s(16, 'default_mix_gain')
    elif kind == 'demixing':
        demixing_info(g)
        g.u(4, 'default_w')
        g.u(4, 'reserved_for_future_use')
    elif kind in ('polar', 'dual_polar'):
        for _ in range(1 if kind == 'polar' else 2):
            a = g.s(9, 'azimuth')
            g.writes(clip(g, a, -180, 180))
            e = g.s(8, 'elevation')
            g.writes(clip(g, e, -90, 90))
            g.u(7, 'distance')
    elif kind in ('cart8', 'dual_cart8', 'cart16', 'dual_cart16'):
        for _ in range(6 if 'dual' in kind else 3):
            g.s(8 if kind.endswith('8') else 16, 'coordinate')
    return {'id': pid, 'mode': mode, 'n': n, 'd': d, 'c': c}


def clip(g, v, lo, hi):
    return lo if g.lt(v, lo) else hi if g.lt(hi, v) else v


def extended_param_definition(g):
    n = g.leb('param_definition_size')
    g.bound(g.le(n, MAX_OBU), 'a parameter definition is at most as large as an OBU')
    g.bytes(n, 'param_definition_bytes')


def demixing_info(g):
    m = g.u(3, 'dmixp_mode')
    g.u(5, 'dmixp_reserved')
    g.must(not g.isin(m, (3, 7)), 'dmixp_mode is not reserved')


def mix_gain_data(g):
    ty = g.leb('animation_type')
    if g.eq(ty, 0):
        g.s(16, 'start_point_value')
    elif g.eq(ty, 1):
        g.s(16, 'start_point_value')
        g.s(16, 'end_point_value')
    elif g.eq(ty, 2):
        g.s(16, 'start_point_value')
        g.s(16, 'end_point_value')
        g.s(16, 'control_point_value')
        g.u(8, 'control_point_relative_time')
    else:
        g.must(False, 'the animation type is known')


def animated(width, signed):
    def f(g, env):
        ty = g.leb('animation_type')
        f1 = lambda nm: g.u(width, nm, signed)
        if g.isin(ty, (0, 1, 2)):
            f1('start_point_value')
        elif not g.isin(ty, (3, 4)):
            g.must(False, 'the animation type is known')
            return
        if not g.eq(ty, 0):
            f1('end_point_value')
        if g.isin(ty, (2, 4)):
            f1('control_point_value')
            g.u(8, 'control_point_relative_time')
    return f


def recon_gain_data(g, present):
    I = g.I
    for p in present:
        if not p:
            continue
        f = g.leb('recon_gain_flag')
        for j in range(12):
            if g.eq(I.iarith('&', f, 1 << j, (32, False)), 0):
                continue
            g.u(8, 'recon_gain')


def extension_data(g):
    n = g.leb('parameter_data_size')
    g.bound(g.le(n, MAX_OBU), 'parameter data is at most as large as an OBU')
    g.bytes(n, 'parameter_data_bytes')


def parameter_block(g, env):
    """env['param']: (kind, parameter id, mode 1?, number of subblocks, recon gain flags)."""
    kind, pid, mode1, n, flags, valid = env['param']
    g.must(valid, 'the parameter definition is valid')
    x = g.leb('parameter_id')
    g.must(g.eq(x, pid), 'the parameter id is that of the parameter definition')
    data = {'mix_gain': mix_gain_data, 'demixing': demixing_info, 'recon_gain': lambda g: recon_gain_data(g, flags)}[kind]
    if mode1:
        schedule(g, data)
        return
    for _ in range(g.count(n, 'subblocks')):
        data(g)


def element_gain_offset(g, env=None):
    ty = g.u(8, 'element_gain_offset_config_type')
    if g.eq(ty, 0):
        g.s(16, 'element_gain_offset')
    elif g.eq(ty, 1):
        d, lo, hi = g.s(16, 'default_element_gain_offset'), g.s(16, 'min_element_gain_offset'), g.s(16, 'max_element_gain_offset')
        g.must(g.le(lo, hi), 'the range of the gain offset is not empty')
        g.must(g.le(lo, d), 'the default gain offset is not below the minimum')
        g.must(g.le(d, hi), 'the default gain offset is not above the maximum')
    else:
        n = g.leb('element_gain_offset_size')
        g.bound(g.le(n, MAX_OBU), 'an extension is at most as large as an OBU')
        g.bytes(n, 'element_gain_offset_bytes')


POSITION = ('polar', 'cart8', 'cart16', 'dual_polar', 'dual_cart8', 'dual_cart16')


class Opaque(Exception):
    pass


def rendering_extension(g, egof):
    n = g.leb('num_parameters')
    for _ in range(g.count(n, 'rendering parameters')):
        ty = g.leb('param_definition_type')
        for k, nm in enumerate(POSITION):
            if g.eq(ty, 3 + k):
                param_definition(g, nm)
                break
        else:
            raise Opaque()
    if egof:
        element_gain_offset(g)


def rendering_config(g, env=None):
    g.u(2, 'headphones_rendering_mode')
    egof = g.flag('element_gain_offset_flag')
    at = g.i - 1
    g.u(2, 'binaural_filter_profile')
    g.u(3, 'rendering_reserved')
    n = g.leb('rendering_config_extension_size')
    g.bound(g.le(n, MAX_OBU), 'an extension is at most as large as an OBU')
    if g.eq(n, 0):
        if egof:
            g.other = True      # written back without the flag
        return
    start = g.used
    if g.i < len(g.t) and g.t[g.i].kind == 'bytes':
        # read as opaque bytes: only right if the content cannot be understood
        alt = g.I.dropped.get((g.t[g.i].serial), None)
        if alt is not None:
            s = g.sub(alt)
            try:
                rendering_extension(s, egof)
                if not s.broken and not s.dubious:
                    import oburun
                    if oburun.DBG: print('ALT', alt, s.i, s.used)
                    raise Syntax('a valid rendering config extension is not understood')
            except (Justified, End, Opaque):
                pass
        g.bytes(n, 'rendering_config_extension_bytes')
        g.other = True          # written back after an empty list of parameters
        return
    try:
        rendering_extension(g, egof)
    except Opaque:
        raise Syntax('an unknown parameter type is understood')
    end = add(start, scale(n, 8))
    g.must(g.le(g.used, end), 'the rendering parameters fit the extension size')
    if not g.eq(g.used, end):
        g.bytes(I_div8(g, sub(end, g.used)), 'rendering_config_extension_bytes')


# ---- mix presentation ---------------------------------------------------------------------------

def unique(g, vs, v, msg):
    g.must(not any(g.eq(v, x) for x in vs), msg)
    vs.append(v)


def layout(g, env=None):
    ty = g.u(2, 'layout_type')
    stereo = False
    if g.eq(ty, 2):
        ss = g.u(4, 'sound_system')
        g.u(2, 'layout_reserved')
        stereo = g.eq(ss, 0)
    else:
        g.u(6, 'layout_reserved')
    return stereo


def loudness_info(g):
    I = g.I
    ty = g.u(8, 'info_type')
    g.s(16, 'integrated_loudness')
    g.s(16, 'digital_peak')

    def bit(m):
        return not g.eq(I.iarith('&', ty, m, (32, False)), 0)
    if bit(1):
        g.s(16, 'true_peak')
    if bit(2):
        n = g.u(8, 'num_anchored_loudness')
        vs = []
        for _ in range(g.count(n, 'anchors')):
            unique(g, vs, g.u(8, 'anchor_element'), 'anchor elements are unique')
            g.s(16, 'anchored_loudness')
    if bit(0xfc):
        n = g.leb('info_type_size')
        g.bound(g.le(n, MAX_OBU), 'an extension is at most as large as an OBU')
        g.bytes(n, 'info_type_bytes')


def mix_presentation_layout(g, env=None):
    s = layout(g)
    loudness_info(g)
    return s


def sub_mix(g, labels, ids):
    n = g.leb('num_audio_elements')
    g.bound(not g.eq(n, 0), 'a sub mix has audio elements')
    for _ in range(g.count(n, 'audio elements')):
        unique(g, ids, g.leb('audio_element_id'), 'audio element ids are unique')
        for _ in range(labels):
            g.string('localized_element_annotation')
        rendering_config(g)
        param_definition(g, 'mix_gain')
    param_definition(g, 'mix_gain')
    n = g.leb('num_layouts')
    stereo = False
    for _ in range(g.count(n, 'layouts')):
        stereo = mix_presentation_layout(g) or stereo
    if not stereo:
        g.may(False, 'every sub mix has a stereo layout')


def mix_presentation(g, env):
    g.leb('mix_presentation_id')
    n = g.leb('count_label')
    g.may(g.le(n, 256), 'the number of labels is practical')
    k = g.count(n, 'labels')
    ls = []
    for _ in range(k):
        unique(g, ls, g.string('annotations_language'), 'languages are unique')
    for _ in range(k):
        g.string('localized_presentation_annotation')
    m = g.leb('num_sub_mixes')
    g.bound(g.le(m, 28), 'there are at most 28 sub mixes')
    g.must(not g.eq(m, 0), 'there are sub mixes')
    ids = []
    for _ in range(g.count(m, 'sub mixes')):
        sub_mix(g, k, ids)
    opt = g.eq(dict(g.fields)['type_specific_flag'], 1)
    if g.eq(g.used, env['end']):
        g.must(not opt, 'the optional fields are present')
        return
    n = g.u(8, 'num_tags')
    for _ in range(g.count(n, 'tags')):
        g.string('tag_name')
        g.string('tag_value')
    if opt:
        n = g.leb('optional_fields_size')
        g.bound(g.le(2, n), 'the optional fields have at least two bytes')
        g.bound(g.le(n, MAX_OBU), 'an extension is at most as large as an OBU')
        g.u(8, 'preferred_loudspeaker_renderer')
        g.u(8, 'preferred_binaural_renderer')
        g.bytes(sub(n, 2), 'optional_fields_remaining_bytes')


# ---- audio element ------------------------------------------------------------------------------

def scalable_layout(g, nsub):
    n = g.u(3, 'num_layers')
    g.u(5, 'scalable_reserved')
    g.must(not g.isin(n, (0, 7)), 'there are 1 to 6 layers')
    k = g.count(n, 'layers')
    tot = 0
    binaural = False
    for _ in range(k):
        lay = g.u(4, 'loudspeaker_layout')
        og = g.flag('output_gain_is_present_flag')
        g.flag('recon_gain_is_present_flag')
        g.u(2, 'layer_reserved')
        tot = add(tot, g.u(8, 'substream_count'))
        g.u(8, 'coupled_substream_count')
        if og:
            g.u(6, 'output_gain_flag')
            g.u(2, 'gain_reserved')
            g.s(16, 'output_gain')
        if g.eq(lay, 15):
            g.u(8, 'expanded_loudspeaker_layout')
        elif g.eq(lay, 9):
            binaural = True
    g.must(g.eq(tot, nsub), 'the layers have as many substreams as the audio element')
    g.must(not binaural or k == 1, 'a binaural layout is the only layer')


def ambisonics(g, nsub):
    mode = g.leb('ambisonics_mode')
    squares = [(i + 1) * (i + 1) for i in range(15)]
    if g.eq(mode, 0):
        n = g.u(8, 'output_channel_count')
        s = g.u(8, 'substream_count')
        g.must(g.isin(n, squares), 'the number of ambisonics channels is a square')
        g.must(not g.eq(s, 0), 'there are substreams')
        g.must(g.le(s, n), 'there are at most as many substreams as channels')
        t = g.bytes(n, 'channel_mapping')
        g.must(g.eq(s, nsub), 'the mapping has as many substreams as the audio element')
        k = g.count(n, 'ambisonics channels')
        used = []
        for i in range(k):
            m = g.I.at(t.vec, i).v
            if g.eq(m, 255):
                continue
            g.must(g.lt(m, s), 'the mapping names existing substreams')
            if not any(g.eq(m, x) for x in used):
                used.append(m)
        g.must(g.eq(s, len(used)), 'every substream is mapped')
    elif g.eq(mode, 1):
        n = g.u(8, 'output_channel_count')
        s = g.u(8, 'substream_count')
        c = g.u(8, 'coupled_substream_count')
        g.must(g.isin(n, squares), 'the number of ambisonics channels is a square')
        g.must(g.le(c, s), 'there are at most as many coupled substreams as substreams')
        tot = add(s, c)
        g.must(not g.eq(tot, 0), 'there are substreams')
        g.must(g.le(tot, n), 'there are at most as many decoded as ambisonics channels')
        g.must(g.eq(s, nsub), 'the matrix has as many substreams as the audio element')
        for _ in range(g.count(n, 'ambisonics channels')):
            for _ in range(g.count(tot, 'decoded channels')):
                g.s(16, 'demixing_matrix')
    else:
        g.must(False, 'the ambisonics mode is known')


def objects(g, nsub):
    g.must(g.eq(nsub, 1), 'object based audio has one substream')
    n = g.u(8, 'objects_config_size')
    g.must(not g.eq(n, 0), 'the objects config has a size')
    k = g.u(8, 'num_objects')
    g.must(g.isin(k, (1, 2)), 'there are one or two objects')
    g.bytes(sub(n, 1), 'objects_config_extension_bytes')


def audio_element(g, env):
    g.leb('audio_element_id')
    ty = g.u(3, 'audio_element_type')
    g.u(5, 'audio_element_reserved')
    g.leb('codec_config_id')
    nsub = g.leb('num_substreams')
    ids = []
    for _ in range(g.count(nsub, 'substreams')):
        unique(g, ids, g.leb('audio_substream_id'), 'substream ids are unique')
    n = g.leb('num_parameters')
    g.may(g.le(n, 256), 'the number of parameters is practical')
    tys = []
    for _ in range(g.count(n, 'parameters')):
        t = g.leb('param_definition_type')
        unique(g, tys, t, 'parameter types are unique')
        if g.eq(t, 1):
            param_definition(g, 'demixing')
        elif g.eq(t, 2):
            param_definition(g, 'recon_gain')
        else:
            g.must(not g.eq(t, 0), 'audio elements have no mix gain')
            extended_param_definition(g)
    if g.eq(ty, 0):
        scalable_layout(g, nsub)
    elif g.eq(ty, 1):
        ambisonics(g, nsub)
    elif g.eq(ty, 2):
        objects(g, nsub)
    else:
        m = g.leb('audio_element_config_size')
        g.bytes(m, 'audio_element_config_bytes')
