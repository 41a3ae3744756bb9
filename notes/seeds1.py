SEEDS = [
dict(id="p01-chunk-start", prop="P01", tests="",
 edits=[("rsciio/utils/_distributed.py", "        starts = [int(np.sum(chunk[:i])) for i, chunk in zip(ind, chunks)]",
         "        starts = [int(i * chunk[0]) for i, chunk in zip(ind, chunks)]")],
 needs="explicit chunks whose sizes differ before the last one",
 breaks="a lazily read block file with uneven chunks repeats and skips scan positions",
 demo='''
import os, tempfile, numpy as np, dask
from rsciio.blockfile import file_reader, file_writer
d = np.arange(5 * 4 * 3 * 3, dtype="uint8").reshape(5, 4, 3, 3)
ax = [dict(name=n, size=s, scale=1.0, offset=0.0, units=u, navigate=i < 2, index_in_array=i)
      for i, (n, s, u) in enumerate(zip("y x dy dx".split(), d.shape, ["nm", "nm", "cm", "cm"]))]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.blo")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {}, "Signal": {}}, original_metadata={}, attributes={"_lazy": False}), navigator=None, show_progressbar=False)
    r = file_reader(f, lazy=True, chunks=((1, 3, 1), 4, 3, 3))[0]["data"].compute(scheduler="synchronous")
    raise SystemExit(0 if np.array_equal(r, d) else 1)
'''),
dict(id="p01-header-endian", prop="P01", tests="",
 edits=[("rsciio/blockfile/_api.py", '            ("Camera_length", end + "u4"),  # [10 * mm]', '            ("Camera_length", "<u4"),  # [10 * mm]')],
 needs="a big-endian file read by someone else's layout (writer and reader agree with each other)",
 breaks="camera length of big-endian block files is read byte-swapped",
 demo='''
import os, tempfile, numpy as np, struct
from rsciio.blockfile import file_reader, file_writer
d = np.zeros((2, 2, 3, 3), "uint8")
ax = [dict(name=n, size=s, scale=1.0, offset=0.0, units=u, navigate=i < 2, index_in_array=i)
      for i, (n, s, u) in enumerate(zip("y x dy dx".split(), d.shape, ["nm", "nm", "cm", "cm"]))]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.blo")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {}, "Signal": {}}, original_metadata={}, attributes={"_lazy": False}), navigator=None, show_progressbar=False, endianness=">")
    b = bytearray(open(f, "rb").read())
    # ID 6, MAGIC 2, 3 u4, 5 u2, 2 f8, u4, u2
    o = 6 + 2 + 12 + 10 + 16 + 4 + 2
    b[o:o + 4] = struct.pack(">I", 123456)
    open(f, "wb").write(b)
    h = file_reader(f, endianness=">")[0]["original_metadata"]["blockfile_header"]
    raise SystemExit(0 if h["Camera_length"] == 123456 else 1)
'''),
dict(id="p02-lazy-offset", prop="P02",
 edits=[("rsciio/ripple/_api.py", "offset=offset,", "offset=offset if record_by != \"image\" else 0,")],
 needs="an image stack whose raw file starts with a header, read lazily",
 breaks="lazily read image stacks ignore the data offset",
 demo='''
import os, tempfile, numpy as np
from rsciio.ripple import file_reader
d = np.arange(12, dtype="int32").reshape(2, 3, 2)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.rpl")
    keys = [("key", "value"), ("width", 2), ("height", 3), ("depth", 2), ("offset", 16), ("data-length", 4), ("data-type", "signed"), ("byte-order", "little-endian"), ("record-by", "image")]
    open(f, "w").write("".join("%s\\t%s\\n" % k for k in keys))
    open(f[:-3] + "raw", "wb").write(bytes(range(16)) + d.tobytes())
    r = file_reader(f, lazy=True)[0]["data"].compute(scheduler="synchronous")
    raise SystemExit(0 if np.array_equal(r, d) else 1)
'''),
dict(id="p02-depth-scale", prop="P02", tests="",
 edits=[("rsciio/ripple/_api.py", '''    if "depth-scale" in rpl_info:
        scales[idepth] = rpl_info["depth-scale"]
    # ev-per-chan is the only calibration supported by the original ripple
    # format
    elif "ev-per-chan" in rpl_info:
        scales[idepth] = rpl_info["ev-per-chan"]
''', '''    # ev-per-chan is the only calibration supported by the original ripple
    # format
    if rpl_info.get("ev-per-chan"):
        scales[idepth] = rpl_info["ev-per-chan"]
    elif "depth-scale" in rpl_info:
        scales[idepth] = rpl_info["depth-scale"]
''')],
 needs="a spectrum whose channel width is not an integer but rounds to 1 or more",
 breaks="the energy scale is rounded to an integer",
 demo='''
import os, tempfile, numpy as np
from rsciio.ripple import file_reader, file_writer
d = np.arange(6, dtype="int32").reshape(2, 3)
ax = [dict(name="x", size=2, scale=1.0, offset=0.0, units="nm", navigate=True, index_in_array=0), dict(name="E", size=3, scale=2.5, offset=0.0, units="eV", navigate=False, index_in_array=1)]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.rpl")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {"title": "t"}, "Signal": {"signal_type": ""}}, original_metadata={}, attributes={"_lazy": False}))
    r = file_reader(f)[0]["axes"][1]["scale"]
    raise SystemExit(0 if r == 2.5 else 1)
'''),
dict(id="p03-hysteresis", prop="P03", tests="",
 edits=[("rsciio/tvips/_api.py", '''                indices[..., :, ::2] = np.roll(
                    indices[..., :, ::2], hysteresis, axis=-2
                )''', '''                indices[..., :, ::2] = np.roll(
                    indices[..., :, ::2], hysteresis, axis=0
                )''')],
 needs="a scan with more than two navigation axes, winding along y and a non-zero hysteresis",
 breaks="the shift of winding scans along y moves frames between slow-axis positions",
 demo='''
import os, tempfile, numpy as np
from rsciio.tvips import file_reader, file_writer
d = np.arange(12, dtype="uint16").reshape(12, 1, 1)
ax = [dict(name="t", size=12, scale=1.0, offset=0.0, units="s", navigate=True, index_in_array=0)] + [dict(name=n, size=1, scale=1.0, offset=0.0, units="nm", navigate=False, index_in_array=i) for i, n in ((1, "y"), (2, "x"))]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a_000.tvips")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {}, "Signal": {}}, original_metadata={}, attributes={"_lazy": False}), show_progressbar=False)
    r = file_reader(f, scan_shape=(2, 3, 2), winding_scan_axis="y", hysteresis=1)[0]["data"][..., 0, 0]
    w = np.arange(12).reshape(2, 3, 2)
    w[:, :, ::2] = np.roll(w[:, ::-1, ::2], 1, axis=1)
    raise SystemExit(0 if np.array_equal(r, w) else 1)
'''),
dict(id="p04-negative-step", prop="P04",
 edits=[("rsciio/semper/_api.py", 'label["DYV3"] = pack(self.scales[1])  # DY', 'label["DYV3"] = pack(abs(self.scales[1]))  # DY')],
 needs="a negative step along the second axis",
 breaks="the sign of the step of the second axis is lost",
 demo='''
import os, tempfile, numpy as np
from rsciio.semper import file_reader, file_writer
d = np.arange(6, dtype="int16").reshape(2, 3)
ax = [dict(name=n, size=s, scale=v, offset=1.0, units="nm", navigate=False, index_in_array=i) for i, (n, s, v) in enumerate((("y", 2, 2.0), ("x", 3, -0.5)))]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.unf")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {"title": "ab", "date": "2020-01-02", "time": "01:02:03"}, "Signal": {"signal_type": ""}}, original_metadata={}))
    raise SystemExit(0 if [a["scale"] for a in file_reader(f)[0]["axes"]] == [2.0, -0.5] else 1)
'''),
dict(id="p05-stream-len", prop="P05", tests="",
 edits=[("rsciio/digitalsurf/_api.py", "                rawData += zlib.decompress(file.read(zipLengthData[i]))", "                rawData += zlib.decompress(file.read(zipLengthData[i]))[: rawLengthData[0]]")],
 needs="a compressed surface in several streams of unequal length, the later ones longer",
 breaks="points of streams longer than the first are dropped",
 demo='''
import os, tempfile, numpy as np, struct, zlib
from rsciio.digitalsurf import file_reader, file_writer
d = np.arange(6, dtype="int16").reshape(2, 3)
ax = [dict(name=n, size=s, scale=1.0, offset=0.0, units="nm", navigate=False, index_in_array=i) for i, (n, s) in enumerate((("y", 2), ("x", 3)))]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.sur")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {}, "Signal": {}}, original_metadata={}, attributes={"_lazy": False}), compressed=True)
    b = open(f, "rb").read()
    com, priv = struct.unpack("<hh", b[334:338])
    raw = d.astype("<i2").tobytes()
    z = [zlib.compress(raw[:4]), zlib.compress(raw[4:])]
    body = struct.pack("<IIIII", 2, 4, len(z[0]), 8, len(z[1])) + z[0] + z[1]
    h = b[:512 + com + priv]
    open(f, "wb").write(h + body)
    r = file_reader(f)[0]["data"]
    raise SystemExit(0 if np.array_equal(r, d) else 1)
'''),
dict(id="p05-series-axis", prop="P05", tests="",
 edits=[("rsciio/digitalsurf/_api.py", '        scale = unpacked_dict["_56_T_Spacing"]\n        if scale == 0:\n            scale = 1', '        scale = unpacked_dict["_56_T_Spacing"]\n        if scale <= 0:\n            scale = 1')],
 needs="a series or hyperspectral map with a decreasing (negative) axis step",
 breaks="negative steps of the series or spectral axis are replaced with 1",
 demo='''
import os, tempfile, numpy as np
from rsciio.digitalsurf import file_reader, file_writer
d = np.arange(6, dtype="int16").reshape(2, 3)
ax = [dict(name="T", size=2, scale=-0.5, offset=3.0, units="s", navigate=True, index_in_array=0), dict(name="X", size=3, scale=1.0, offset=0.0, units="nm", navigate=False, index_in_array=1)]
d = np.arange(12, dtype="int16").reshape(2, 2, 3)
ax = [ax[0], dict(name="Y", size=2, scale=1.0, offset=0.0, units="nm", navigate=False, index_in_array=1), dict(ax[1], index_in_array=2)]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.sur")
    file_writer(f, dict(data=d, axes=ax, metadata={"General": {}, "Signal": {}}, original_metadata={}, attributes={"_lazy": False}))
    r = file_reader(f)[0]["axes"][0]
    raise SystemExit(0 if (r["scale"], r["offset"]) == (-0.5, 3.0) else 1)
'''),
]
for s in SEEDS:
    s.pop("tests", None)
