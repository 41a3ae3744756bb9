"""Bruker composite files (bcf) and spectra (spx)."""
import base64
import zlib

from symex import H
from symex.hlib import *

PYX = True
ASSUMPTIONS = [
    "the container is laid out by the harness from the description of the format: header, chunks in any order, pointer tables, directory",
    "the Cython decoder is translated from its source with C semantics at every store, cast and call (arithmetic between stores is exact); it is compiled anew for replay",
    "the XML header is concrete; compressed blocks hold stored (uncompressed) deflate data",
    "counts stay within twice the average of the strongest channel, on which the choice of the data type relies (see known findings)",
]


# ------------------------------------------------------------ container
def sfs(env, files, chunk=544, perm=0, compressed=None, tree_first=False, block=None):
    """files: list of (path, cells); perm: order of the chunks on disk"""
    use = chunk - 32
    items = []  # (name, parent, is_dir, cells)
    dirs = {}
    for path, cells in files:
        *d, name = path.split("/")
        parent = -1
        for i, x in enumerate(d):
            k = "/".join(d[: i + 1])
            if k not in dirs:
                dirs[k] = len(items)
                items.append((x, parent, True, None))
            parent = dirs[k]
        if compressed:
            cells = aacs(env, cells, block or 0x1000)
        items.append((name, parent, False, cells))
    if tree_first:  # children before their directories
        n = len(items)
        items = [(a, n - 1 - p if p >= 0 else -1, d, c) for a, p, d, c in items[::-1]]
    chunks = []  # (next, payload)
    table = {}
    for i, (name, parent, d, cells) in enumerate(items):
        if d:
            continue
        data = []
        for k in range(0, max(len(cells), 1), use):
            data.append(len(chunks))
            chunks.append([0, list(cells[k : k + use])])
        table[i] = data
    ptab = {}
    per = use // 4
    for i, data in table.items():
        ids = []
        for k in range(0, len(data), per):
            ids.append(len(chunks))
            chunks.append([0, ("ptr", data[k : k + per])])
        for a, b in zip(ids, ids[1:]):
            chunks[a][0] = b
        ptab[i] = ids[0]
    tids = []
    pt = use // 0x200
    for k in range(0, len(items), pt):
        tids.append(len(chunks))
        chunks.append([0, ("tree", list(range(k, min(k + pt, len(items)))))])
    for a, b in zip(tids, tids[1:]):
        chunks[a][0] = b
    n = len(chunks)
    if perm == 0:
        place = list(range(n))
    elif perm == 1:
        place = list(range(n))[::-1]
    else:
        place = [(i * perm + 1) % n for i in range(n)]
        if len(set(place)) != n:
            place = place[:1] + [i for i in range(n) if i != place[0]]
    place = [p + 1 for p in place]  # chunk 0 describes the container
    body = {}
    for i, (nxt, p) in enumerate(chunks):
        if isinstance(p, tuple) and p[0] == "ptr":
            c = []
            for j in p[1]:
                c += list(env.pack("<I", place[j]))
        elif isinstance(p, tuple):
            c = []
            for j in p[1]:
                name, parent, d, cells = items[j]
                b = list(env.pack("<iQQQQIi", 0 if d else place[ptab[j]], 0 if d else len(cells), 0, 0, 0, 0, parent))
                b += [0] * 176 + [int(d)] + [0] * 3 + list(name.encode()) + [0] * (256 - len(name)) + [0] * 32
                c += b
        else:
            c = p
        c = list(c)
        head = list(env.pack("<I", place[nxt])) + [0xEE] * 28
        body[place[i]] = head + c + [0xEE] * (use - len(c))
    out = [0] * (0x118 + chunk)
    put(out, 0, b"AAMVHFSS")
    put(out, 0x124, env.pack("<fI", 2.4, chunk))
    put(out, 0x140, env.pack("<III", place[tids[0]], len(items), n + 1))
    for k in range(n):
        out += body[k + 1]
    return out


def aacs(env, cells, block):
    n = -(-len(cells) // block)
    out = list(env.pack("<IIII", 0x53434141, block, 0, n)) + [0] * 0x70
    for k in range(0, len(cells), block):
        z = list(env.compress(cells[k : k + block]))
        out += list(env.pack("<IIII", len(z), block, 7, len(z) + 16)) + z
    return out


# --------------------------------------------------------------- header
def cls(type, body, name=None):
    return '<ClassInstance Type="%s"%s>%s</ClassInstance>' % (type, ' Name="%s"' % name if name else "", body)


def spectrum(channels, amp=20000, hv=20, lin=0.01, off=-0.4):
    lay = base64.b64encode(zlib.compress(b'<DL><Layer0 Atom="5" Thickness="1.3"/></DL>')).decode()
    return cls(
        "TRTSpectrum",
        "<TRTHeaderedClass>"
        + cls("TRTSpectrumHardwareHeader", "<RealTime>3000</RealTime><LifeTime>2500</LifeTime><Amplification>%d</Amplification>" % amp)
        + cls("TRTDetectorHeader", "<Type>XFlash</Type><DetLayers>%s</DetLayers>" % lay)
        + cls("TRTESMAHeader", "<PrimaryEnergy>%s</PrimaryEnergy><ElevationAngle>35</ElevationAngle><AzimutAngle>45</AzimutAngle>" % hv)
        + "</TRTHeaderedClass>"
        + cls("TRTSpectrumHeader", "<Date>2.1.2014</Date><Time>3:04:05</Time><CalibAbs>%s</CalibAbs><CalibLin>%s</CalibLin>" % (off, lin))
        + "<Channels>%s</Channels>" % ",".join(map(str, channels)),
    )


def header(w, h, spectra, hv=20, dx=0.5, dy=0.25, images=(), item=2, la=2, pa=3, pt=4, version=1, extra=""):
    planes = ""
    for i, (raw, desc) in enumerate(images):
        planes += "<Plane%d><Data>%s</Data>%s</Plane%d>" % (i, base64.b64encode(raw).decode(), "<Description>%s</Description>" % desc if desc else "", i)
    s = "".join("<SpectrumData%d>%s</SpectrumData%d>" % (i, x, i) for i, x in spectra.items())
    return (
        "<Root>"
        + cls(
            "TRTSpectrumDatabase",
            "<Header><Date>3.2.2013</Date><Time>12:34:56</Time><FileVersion>%d</FileVersion></Header>" % version
            + "<LineCounter>1,2,3</LineCounter><ChCount>4</ChCount><DetectorCount>1</DetectorCount>"
            + cls("TRTSEMData", "<HV>%s</HV><DX>%s</DX><DY>%s</DY><Mag>1000</Mag>" % (hv, dx, dy))
            + cls("TRTSEMStageData", "<X>10</X><Y>20</Y><Z>30</Z><Rotation>40</Rotation><Tilt>5</Tilt>")
            + cls("TRTDSPConfiguration", "<LineAverage>%d</LineAverage><PixelAverage>%d</PixelAverage><PixelTime>%d</PixelTime>" % (la, pa, pt))
            + cls("TRTImageData", "<Width>%d</Width><Height>%d</Height><ItemSize>%d</ItemSize><PlaneCount>%d</PlaneCount>%s" % (w, h, item, len(images), planes))
            + s + extra,
            name="map",
        )
        + "</Root>"
    ).encode()


# --------------------------------------------------------------- pixels
def pulses16(env, v):
    out = []
    for x in v:
        out += list(env.pack("<H", x))
    return out


def pulses12(env, v):
    """12-bit values, most significant first, in 16-bit words stored little-endian"""
    nib = []
    for x in v:
        nib += [x >> 8, (x >> 4) & 15, x & 15]
    nib += [0] * (-len(nib) % 4)
    out = []
    for k in range(0, len(nib), 4):
        a, b, c, d = nib[k : k + 4]
        out += [(c << 4) | d, (a << 4) | b]
    return out


FMT = {2: "B", 4: "H", 8: "I"}


class Map:
    """writes the stream of pixels and keeps the counts each channel shall get"""

    def __init__(self, env, w, h, nch, cap=255):
        self.env, self.w, self.h, self.nch, self.cap = env, w, h, nch, cap - 10
        self.out = [0] * 0x1A0
        put(self.out, 0, env.pack("<II", h, w))
        self.want = {}

    def line(self, n):
        self.out += list(self.env.pack("<I", n))

    def head(self, x, flag, size, pulses, chan2=None):
        e = self.env
        self.out += list(e.pack("<IHHIHHHI", x, self.nch, self.nch if chan2 is None else chan2, 1, flag, size, pulses, size))

    def add(self, y, x, counts):
        self.want[y, x] = counts

    def hist(self, v):
        e = self.env
        r = []
        for c in range(self.nch):
            t = 0
            for x in v:
                t = t + e.ite(x == c, 1, 0)
            r.append(t)
        return r

    def pulse(self, y, x, flag, n, hi=None):
        e = self.env
        v = [e.int("p", 0, (self.nch if hi is None else hi) - 1) for _ in range(n)]
        b = pulses16(e, v) if flag == 0 else pulses12(e, v)
        self.head(x, flag, len(b), n)
        self.out += b
        self.add(y, x, self.hist(v))

    def instr(self, y, x, bunches, extra=0, chan2=None, flag=2):
        """bunches: (width in nibbles, channels); width 0: empty channels"""
        e = self.env
        b, counts = [], []
        for s, n in bunches:
            b += [s, n]
            if s == 0:
                counts += [0] * n
                continue
            top = {1: 15, 2: 255, 4: 65535, 8: 2 ** 32 - 1}[s]
            gtop = {1: 255, 2: 65535, 4: 2 ** 32 - 1, 8: 2 ** 40 - 1}[s]
            g = e.int("g", 0, min(gtop, self.cap // 2))
            b += list(e.pack({1: "<B", 2: "<H", 4: "<I", 8: "<Q"}[s], g))
            v = [e.int("v", 0, min(top, self.cap // 2)) for _ in range(n)]
            if s == 1:
                w = v + [0] * (n % 2)
                b += [w[k] | (w[k + 1] << 4) for k in range(0, len(w), 2)]
            else:
                for q in v:
                    b += list(e.pack("<" + FMT[s], q)) if s != 2 else [q]
            counts += [q + g for q in v]
        counts += [0] * (self.nch - len(counts))
        add = [e.int("a", 0, self.nch - 1) for _ in range(extra)]
        self.head(x, flag, len(b) + 4, extra, chan2)
        self.out += b
        if extra:
            self.out += list(e.pack("<I", 2 * extra)) + pulses16(e, add)
            h = self.hist(add)
            counts = [p + q for p, q in zip(counts, h)]
        else:
            self.out += [0] * 4
        self.add(y, x, counts)


def expect(env, data, m, down=1, keep=None):
    keep = m.nch if keep is None else keep
    h, w = -(-m.h // down), -(-m.w // down)
    r = env.nd(data)
    env.check(tuple(r.shape) == (h, w, keep), "shape of the map")
    ok = []
    for y in range(h):
        for x in range(w):
            for c in range(keep):
                t = 0
                for (b, a), v in m.want.items():
                    if b // down == y and a // down == x and c < m.nch:
                        t = t + v[c]
                ok.append(r[y, x, c] == t)
    env.check(env.all(*ok), "every pulse counted in its pixel and channel")


def load(env, m, fast, lazy=False, roof=None, hdr=None, chunk=544, perm=0, compressed=None, n=None, block=None, tree_first=False, spectra=None, **kw):
    from rsciio.bruker import _api, file_reader

    _api.fast_unbcf = fast
    roof = m.w * m.h * 127 if roof is None else roof
    hdr = hdr or {}
    nch = m.nch if n is None else n
    spectra = spectra or {0: spectrum([roof] + [1] * (nch - 1))}
    xml = header(m.w, m.h, spectra, images=[(b"\x01\x02" * (m.w * m.h), "BSE")], **hdr)
    files = [("EDSDatabase/HeaderData", list(xml))]
    files += [("EDSDatabase/SpectrumData%d" % i, m.out) for i in spectra]
    env.file("a.bcf", sfs(env, files, chunk, perm, compressed, tree_first, block))
    return file_reader(env.path("a.bcf"), lazy=lazy, **kw)


def find(out, ndim):
    return [s for s in out if len(s["axes"]) == ndim]


def one(env, out):
    s = find(out, 3)
    env.check(len(s) == 1, "one map")
    axes_match(env, s[0])
    d = s[0]["data"]
    return s[0], d.compute() if hasattr(d, "compute") else d


def m_pulses(env, fast, flag, n, lazy):
    m = Map(env, 2, 2, 6)
    m.line(2)
    m.pulse(0, 0, flag, n)
    m.pulse(0, 1, flag, n + 1)
    m.line(1)
    m.pulse(1, 1, flag, n)
    expect(env, one(env, load(env, m, fast, lazy))[1], m)
    env.cover("read")


def m_instr(env, fast, bunches, extra, rest=0, flag=2, cap=255, size=1):
    n = sum(k for _, k in bunches)
    m = Map(env, 2, 1, n + rest, cap)
    m.line(2)
    m.instr(0, 1, bunches, extra, n, flag)
    m.instr(0, 0, bunches[::-1], 0, n, flag)
    roof = {255: 200, 65535: 60000}.get(cap, 2 ** 31)
    s, d = one(env, load(env, m, fast, roof=roof))
    expect(env, d, m)
    env.cover("read")


def m_down(env, fast, down, w, h, flags, order=None):
    wide = down == 3
    m = Map(env, w, h, 4, cap=65535 // 9 if wide else 63)
    k = 0
    for y in range(h):
        xs = [x for x in range(w) if (x + y) % 4 != 3 and (w, y) != (4, 0)]
        if order:
            xs = xs[::-1]
        m.line(len(xs))
        for x in xs:
            f = flags[k % len(flags)]
            k += 1
            if down == 3 and k > 5:
                f = 2
            if f < 2:
                m.pulse(y, x, f, 2)
            else:
                m.instr(y, x, [(2, 2), (0, 1), (1, 1)], 1)
    roof = m.w * m.h * (20000 if wide else 120) // down // down
    s, d = one(env, load(env, m, fast, downsample=down, roof=roof))
    expect(env, d, m, down)
    env.check(s["axes"][0]["scale"] == 0.25 * down and s["axes"][1]["scale"] == 0.5 * down, "pixel size of the reduced map")
    env.cover("read")


def m_cut(env, fast, nsum, cutoff, keep, hv=20, lin=0.01, off=0.0, chan=6, counts=None, flag=0, amp=20000):
    """cutoff below and above the recorded channels"""
    m = Map(env, 2, 1, chan, 250)
    m.line(2)
    if flag < 2:
        m.pulse(0, 0, flag, 2)
        m.pulse(0, 1, flag, 3)
    else:
        m.instr(0, 0, [(2, 3), (0, chan - 4), (1, 1)], 2)
        m.instr(0, 1, [(4, 1), (2, 1)], 0, 2)
    sp = spectrum(counts or [250] + [1] * (nsum - 1), hv=hv, lin=lin, off=off, amp=amp)
    s, d = one(env, load(env, m, fast, cutoff_at_kV=cutoff, spectra={0: sp}, hdr=dict(hv=hv)))
    expect(env, d, m, keep=keep)
    env.check(s["axes"][2]["scale"] == lin and s["axes"][2]["offset"] == off, "energy axis")
    env.cover("read")


def m_edge(env, fast, kind, comp=None, ks=None):
    """fields of the stream at every position around the end of a block"""
    k = env.choose("fill", ks)
    m = Map(env, 3, 2, 4, cap=100)
    m.line(2)
    m.head(0, 0, 2 * k, k)
    m.out += [0, 0] * k
    m.add(0, 0, [k, 0, 0, 0])
    m.pulse(0, 2, 0, 2) if kind == 0 else m.instr(0, 2, [(1, 3), (2, 1)], 2 if kind == 1 else 0)
    m.line(1)
    m.instr(1, 1, [(1, 1)], 0, 1) if kind != 1 else m.pulse(1, 1, 1, 1)
    s, d = one(env, load(env, m, fast, roof=6 * 100, compressed=comp, block=512))
    expect(env, d, m)
    env.cover("read")


def m_long(env, fast, flag, n, comp=None):
    """one pixel across several blocks"""
    m = Map(env, 2, 1, 1200, cap=60000)
    m.line(2)
    v = [env.int("v", 0, 100) for _ in range(4)]
    if flag == 0:
        p = [1000] * n + [7] * 3
        m.head(0, 0, 2 * len(p), len(p))
        m.out += pulses16(env, p)
        m.add(0, 0, [{1000: n, 7: 3}.get(c, 0) for c in range(1200)])
    else:
        b, counts = [], []
        for k in range(n):
            x = [v[0], k % 200, v[1]]
            b += [4, 3] + list(env.pack("<I", 5)) + [z for q in x for z in env.pack("<H", q)]
            counts += [q + 5 for q in x]
        m.head(0, 2, len(b) + 4, 2, len(counts))
        m.out += b + list(env.pack("<I", 4)) + pulses16(env, [1, 2])
        counts[1] = counts[1] + 1
        counts[2] = counts[2] + 1
        m.add(0, 0, counts + [0] * (1200 - len(counts)))
    m.instr(0, 1, [(2, 2)], 0, 2)
    s, d = one(env, load(env, m, fast, roof=4000, compressed=comp, block=600))
    expect(env, d, m)
    env.cover("read")


def m_sfs(env, fast, chunk, perm, comp, tree, pad, block):
    """any order of chunks; long tables"""
    m = Map(env, 2, 1, 4)
    m.line(1)
    m.pulse(0, 1, 0, 2)
    m.out += [0] * pad
    s, d = one(env, load(env, m, fast, chunk=chunk, perm=perm, compressed=comp, tree_first=tree, block=block))
    expect(env, d, m)
    env.check(s["metadata"]["Sample"]["name"] == "map", "name of the sample")
    env.cover("read")


def m_meta(env, fast, lazy, instrument, hv, select):
    m = Map(env, 3, 2, 5)
    m.line(1)
    m.pulse(0, 1, 0, 1)
    m.line(0)
    raw = bytes(range(1, 13))
    sp = spectrum([10, 1, 2, 3, 4], hv=hv)
    from rsciio.bruker import _api, file_reader

    _api.fast_unbcf = fast
    xml = header(3, 2, {0: sp}, hv=hv, images=[(raw, "BSE"), (bytes(12), "dark"), (raw[::-1], "SE")])
    env.file("a.bcf", sfs(env, [("EDSDatabase/HeaderData", list(xml)), ("EDSDatabase/SpectrumData0", m.out)], 0x820))
    out = file_reader(env.path("a.bcf"), lazy=lazy, select_type=select, instrument=instrument)
    im, mp = find(out, 2), find(out, 3)
    env.check((len(im), len(mp)) == {None: (2, 1), "image": (2, 0), "spectrum_image": (0, 1)}[select], "what was asked for")
    mode = instrument or ("TEM" if hv > 30 else "SEM")
    for s, r, t in zip(im, (raw, raw[::-1]), ("BSE", "SE")):
        axes_match(env, s)
        env.check(env.same_array(s["data"], env.numpy().frombuffer(r, "<u2").reshape(2, 3)), "pixels of the image")
        env.check([(a["name"], a["scale"], a["units"]) for a in s["axes"]] == [("height", 0.25, "µm"), ("width", 0.5, "µm")], "axes of the image")
        env.check(s["metadata"]["General"]["title"] == t, "title of the image")
        env.check(dget(s, "metadata.Acquisition_instrument." + mode + ".beam_energy") == hv, "beam energy")
    for s in mp:
        axes_match(env, s)
        d = s["data"].compute() if lazy else s["data"]
        expect(env, d, m)
        env.check([(a["name"], a["scale"], a["units"], a["offset"], a["navigate"]) for a in s["axes"]] == [
            ("height", 0.25, "µm", 0, True), ("width", 0.5, "µm", 0, True), ("Energy", 0.01, "keV", -0.4, False)], "axes of the map")
        i = dget(s, "metadata.Acquisition_instrument." + mode)
        env.check(i["beam_energy"] == hv and i["magnification"] == 1000, "acquisition")
        e = i["Detector"]["EDS"]
        env.check((e["elevation_angle"], e["azimuth_angle"], e["detector_type"], e["live_time"]) == (35, 45, "XFlash", 2.5), "detector")
        env.check(abs(e["real_time"] - 6 * 2 * 3 * 4 * 3 * 1e-6) < 1e-12, "real time of the map")
        g = s["metadata"]["General"]
        env.check((g["date"], g["time"], g["original_filename"]) == ("2013-02-03", "12:34:56", "a.bcf"), "date and time")
        env.check(s["metadata"]["Signal"]["signal_type"] == "EDS_" + mode, "signal type")
    env.cover("read")


def m_index(env, fast, numbers, index, want):
    """several data sets in one file"""
    ms = {}
    for i in numbers:
        m = Map(env, 2, 1, 4)
        m.line(1)
        m.pulse(0, 1, 0, 1)
        m.add(0, 0, [0] * 4)
        ms[i] = m
    from rsciio.bruker import _api, file_reader

    _api.fast_unbcf = fast
    xml = header(2, 1, {i: spectrum([254, 1, 1, 1], off=i / 8) for i in numbers}, images=[(b"\1\2\3\4", "BSE")])
    env.file("a.bcf", sfs(env, [("EDSDatabase/HeaderData", list(xml))] + [("EDSDatabase/SpectrumData%d" % i, ms[i].out) for i in numbers], 0x820))
    out = file_reader(env.path("a.bcf"), select_type="spectrum_image", index=index)
    env.check(len(out) == len(want), "number of maps")
    for s, i in zip(out, want):
        expect(env, s["data"], ms[i])
        env.check(s["axes"][2]["offset"] == i / 8, "calibration of the same data set")
    env.cover("read")


def m_spx(env, lazy, hv):
    from rsciio.bruker import file_reader

    n = env.choose("n", [1, 3, 5])
    xml = ("<Root>" + spectrum(list(range(n)), hv=hv) + "</Root>").encode()
    env.file("a.spx", list(xml))
    out = file_reader(env.path("a.spx"), lazy=lazy)
    s = out[0]
    axes_match(env, s)
    env.check(env.same_array(s["data"], np.arange(n).astype("u8")), "channels")
    mode = "TEM" if hv > 30 else "SEM"
    env.check(s["metadata"]["Signal"]["signal_type"] == "EDS_" + mode, "signal type")
    env.check(s["metadata"]["Acquisition_instrument"][mode]["beam_energy"] == hv, "beam energy")
    a = s["axes"][0]
    env.check((a["scale"], a["offset"], a["units"]) == (0.01, -0.4, "keV"), "axis")
    env.check((s["metadata"]["General"]["date"], s["metadata"]["General"]["time"]) == ("2014-01-02", "03:04:05"), "date and time")
    env.cover("read")


def hot_pixel(env):
    """one pixel far above the average"""
    m = Map(env, 2, 2, 4)
    m.line(1)
    b = [4, 1] + list(env.pack("<I", 0)) + list(env.pack("<H", 300))
    m.head(0, 2, len(b) + 4, 0, 1)
    m.out += b + [0] * 4
    m.line(0)
    m.add(0, 0, [300, 0, 0, 0])
    s, d = one(env, load(env, m, True, roof=300))
    expect(env, d, m)


KNOWN = {"F70": hot_pixel}


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    R = ["read"]
    F = ["bruker.file_reader", "SFS_reader", "SFSTreeItem", "HyperHeader", "py_parse_hypermap", "unbcf_fast.parse_to_numpy"]

    def add(name, fn, bounds, **kw):
        hs.append(H(name, fn, kw, 400 if T else 150, F, bounds, R))

    for fast in (True, False):
        f = "fast " if fast else "py "
        for flag in (0, 1):
            for n in (1, 2, 3, 4, 5) if T else (1, 3, 4):
                add(f + "pulses %d %d" % (flag, n), m_pulses, "2x2 map, 6 channels, symbolic pulses", fast=fast, flag=flag, n=n, lazy=n == 2)
        for i, (b, extra, rest, flag, cap) in enumerate([
            ([(1, 3), (0, 2), (1, 4)], 2, 0, 2, 255),
            ([(2, 3), (0, 1), (1, 1)], 0, 2, 2, 255),
            ([(4, 2), (2, 3)], 3, 0, 3, 65535),
            ([(8, 2), (4, 1), (1, 5)], 1, 1, 2, 2 ** 31 - 1),
            ([(0, 4)], 1, 0, 2, 255),
        ]):
            add(f + "instructed %d" % i, m_instr, "2x1 map; symbolic gains, counts and additional pulses", fast=fast, bunches=b, extra=extra, rest=rest, flag=flag, cap=cap)
        for down, w, h in [(2, 3, 3), (2, 4, 2), (3, 4, 2)] if T else [(2, 3, 3), (3, 4, 2)]:
            add(f + "downsample %d %dx%d" % (down, w, h), m_down, "symbolic pulses and counts, absent pixels", fast=fast, down=down, w=w, h=h, flags=[2, 0, 1], order=down == 3)
        for i, kw in enumerate([
            dict(nsum=6, cutoff=0.03, keep=3), dict(nsum=6, cutoff=0.1, keep=10), dict(nsum=6, cutoff="zealous", keep=4, counts=[250, 0, 0, 5, 0, 0]),
            dict(nsum=6, cutoff="auto", keep=4, hv=0.04), dict(nsum=6, cutoff="auto", keep=6, hv=20), dict(nsum=6, cutoff="auto", keep=6, hv=0),
            dict(nsum=6, cutoff=0.02, keep=4, off=-0.02),
        ]):
            for flag in (0, 1, 2):
                if T or flag == i % 3 or i < 2:
                    add(f + "cutoff %d %d" % (i, flag), m_cut, "6 channels", fast=fast, flag=flag, **kw)
        for kind in (0, 1, 2):
            for comp in (None, "zlib"):
                add(f + "block end %d %s" % (kind, comp), m_edge, "every alignment of a pixel to the end of a block", fast=fast, kind=kind, comp=comp,
                    ks=list(range(10, 37)) if T else list(range(16, 35)))
        for flag, n in ((0, 60), (0, 300), (0, 700), (2, 40), (2, 150)):
            add(f + "long pixel %d %d" % (flag, n), m_long, "pixel across several blocks", fast=fast, flag=flag, n=n)
        add(f + "long pixel compressed", m_long, "pixel across several blocks", fast=fast, flag=0, n=700, comp="zlib")
        for i, (chunk, perm, comp, tree, pad, block) in enumerate([
            (544, 0, None, False, 0, 0), (544, 1, None, True, 600, 0), (0x820, 3, None, True, 0, 0), (0x420, 5, "zlib", False, 300, 700),
            (544, 7, None, False, 70000, 0), (0x820, 1, "zlib", True, 9000, 512),
        ]):
            add(f + "container %d" % i, m_sfs, "chunks in other orders, chains of tables", fast=fast, chunk=chunk, perm=perm, comp=comp, tree=tree, pad=pad, block=block)
        for i, (lazy, ins, hv, sel) in enumerate([(False, None, 20, None), (True, None, 200, "spectrum_image"), (False, "TEM", 20, None), (False, None, 30, "image"), (True, "SEM", 200, None)]):
            add(f + "metadata %d" % i, m_meta, "concrete header", fast=fast, lazy=lazy, instrument=ins, hv=hv, select=sel)
        for i, (nums, index, want) in enumerate([([0], None, [0]), ([0, 1], 1, [1]), ([1, 2], None, [1]), ([0, 2], "all", [0, 2]), ([3, 12], "all", [3, 12]), ([10], 10, [10])]):
            add(f + "index %d" % i, m_index, "up to two data sets", fast=fast, numbers=nums, index=index, want=want)
    for hv in (10, 200):
        add("spx %d" % hv, m_spx, "concrete channels", lazy=hv == 10, hv=hv)
    return hs
