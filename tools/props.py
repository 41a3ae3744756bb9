"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""

INP = ["inputs"]
CFG = ["inputs", "configurations"]

PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, state=state, observe=observe, note=note))


P("P01", "Block files hold and return every diffraction pattern unchanged",
  "Writing a 4D uint8 scan as a block file and reading it back, eagerly or lazily, in either byte order and with any chunking, gives the same shape, the same value at every pixel, the same scan steps and the same header fields (beam energy, camera length, rotations, note). "
  "Reading any block file places the n-th stored frame at scan position (n div NX, n mod NX), starting at the data offset its header names, and takes each header value from its own field. "
  "A file cut short on a frame boundary is read with the stored frames first and zeros for the missing ones.",
  CFG, "all pixel values, header integers and scan steps; both byte orders; eager and lazy; several chunkings, scan sizes and offsets",
  "the tests compare a few fixed files; a transposed square scan, a header field read at the wrong width or byte order, or a chunk boundary off by one needs values they do not contain",
  ["rsciio/blockfile/_api.py", "rsciio/utils/_distributed.py"],
  [{"name": "header and data writer", "where": "rsciio/blockfile/_api.py:file_writer, get_header_from_signal"},
   {"name": "reader", "where": "rsciio/blockfile/_api.py:file_reader"},
   {"name": "chunked memory map", "where": "rsciio/utils/_distributed.py:memmap_distributed"}],
  note="scan and pattern sizes up to 5x5; note text, magic numbers and pint conversion concrete")

P("P02", "Ripple files round-trip data, calibration and acquisition conditions",
  "A 1D, 2D or 3D signal of a supported type and either byte order written as a ripple pair reads back, eagerly or lazily, with every value, the order of the values, the axis roles, scales, offsets, names, units, titles and the EELS/EDS conditions unchanged; axes of length one are dropped. "
  "Reading any valid rpl/raw pair uses the offset, data type, byte order, record order and calibration keys stated in the rpl file.",
  CFG, "all data bytes, calibrations and instrument values; every supported type; vector, image and don't-care records; symbolic data offset",
  "the tests use fixed arrays in a few type and shape combinations with unit calibrations",
  ["rsciio/ripple/_api.py", "rsciio/utils/_distributed.py"],
  [{"name": "writer", "where": "rsciio/ripple/_api.py:file_writer, write_rpl, write_raw"},
   {"name": "reader", "where": "rsciio/ripple/_api.py:file_reader, parse_ripple, read_raw"}],
  note="shapes up to 3 dimensions with at most 600 values; text fields concrete")

P("P03", "TVIPS streams keep every frame, in order, over any file splitting",
  "Writing a stack or a scan of unsigned images as a TVIPS stream and reading it back gives every pixel, the pixel type, pixel size and offset, beam and stage settings and the acquisition time unchanged, for any maximum file size, extra frame header bytes, byte order in memory and process time zone. "
  "Reading any stream gives the frames of all its files in order; with a scan shape, each position shows frame start + position, with alternate lines reversed and shifted by the hysteresis when a winding axis is given; with an automatic scan shape, each position shows the first frame carrying its rotator index.",
  CFG, "all pixel and header values, all file size limits, all rotator index sequences within the bound; eager and lazy",
  "tests use one recorded stream and a few synthetic ones with regular rotator indices",
  ["rsciio/tvips/_api.py"],
  [{"name": "writer", "where": "rsciio/tvips/_api.py:file_writer, _get_main_header_from_signal"},
   {"name": "reader", "where": "rsciio/tvips/_api.py:file_reader"},
   {"name": "automatic scan", "where": "rsciio/tvips/_api.py:_find_auto_scan_start_stop, _guess_scan_index_grid"}],
  note="frames up to 3x2 pixels, up to 13 frames (300 in one harness), automatic grids of 2x2 from up to 7 frames; integer pixel sizes")

P("P04", "Semper pictures round-trip values, calibration, units and title",
  "Writing a 1D, 2D or 3D array of any supported type (int8, int16, int32, float16/32, complex64; either byte order) as a .unf picture and reading it back, eagerly or lazily, gives the same values (float16 as float32), the scale, offset and units of each axis, the title and the date and time. "
  "Reading a picture laid out by the format puts layers, rows and columns in order, skips row padding and takes the calibration from the label only when the label says it holds one.",
  CFG, "all pixel values, scales and offsets; every data type and byte order; label present or absent, real coordinates set or not",
  "tests round-trip a few fixed arrays with equal units on every axis",
  ["rsciio/semper/_api.py"],
  [{"name": "writer", "where": "rsciio/semper/_api.py:SemperFormat.from_signal, save_to_unf, _get_label"},
   {"name": "reader", "where": "rsciio/semper/_api.py:SemperFormat.load_from_unf, _read_label, to_dictionary"}],
  note="up to 300 rows or columns; no axes of length one; titles, units and dates from fixed sets")

P("P05", "MountainsMap surfaces, profiles, series, maps and images round-trip",
  "Writing a profile, spectrum, surface, series of profiles or surfaces, hyperspectral map or RGB image (compressed or not) and reading it back gives every integer and every representable float unchanged, non-measured points as NaN, and the scale, offset, name, units and role of each axis, the quantity, date and comments unchanged. "
  "Reading any file gives (raw - zmin) * spacing / ratio + offset for each point, in order, over any number of compressed streams and objects, and each calibration from its own header field.",
  CFG, "all point values, spacings, offsets and header minima; every object type, 16 and 32 bit points, 1 to 3 streams",
  "tests read a few recorded files and round-trip a few arrays; rounding at the ends of the integer range, streams of unequal length and negative or equal steps are not sampled",
  ["rsciio/digitalsurf/_api.py"],
  [{"name": "object building", "where": "rsciio/digitalsurf/_api.py:DigitalSurfHandler._split_*, _norm_data, _build_workdict, _build_sur_dict"},
   {"name": "points", "where": "rsciio/digitalsurf/_api.py:_unpack_data, _pack_data, _compress_data"}],
  note="up to 12 points per object; floats restricted to the 32-bit grid of the format; int32 outside surfaces within 2**24; zlib modelled as stored blocks")

P("P06", "Chunked lazy reading returns exactly the file's array",
  "memmap_distributed gives, for any offset, chunking (any partition of any axis, or automatic), data type, C or Fortran order and structured record with a key, an array of the requested shape and chunks whose every element is the file's at that index; without a shape it takes every record after the offset. "
  "With a list of scan positions, each position shows the last frame listed for it and zeros where no frame is listed, also when an axis or a chunk has length one.",
  CFG, "all file bytes; every partition of an axis into chunks; every list of up to 3 positions, and full permutations, on small scans",
  "tests compare one or two chunkings of one array; an off-by-one in a chunk start or an axis of length one depends on the chunking",
  ["rsciio/utils/_distributed.py"],
  [{"name": "chunk slices", "where": "rsciio/utils/_distributed.py:get_chunk_slice, get_arbitrary_chunk_slice"},
   {"name": "block reader", "where": "rsciio/utils/_distributed.py:slice_memmap, memmap_distributed"}],
  note="up to 24 elements, axes up to 4 (6 in thorough); dask's own block placement trusted")

P("P07", "EMSA/MAS spectra keep data, calibration and acquisition parameters",
  "A spectrum written as .msa, as Y or XY with any supported separator, and read back has every value, the channel width and offset, label, units, title of any length, date, time (to the minute), signal type and acquisition parameters unchanged, whatever was written before in the same process, and the writer changes nothing in the signal it is given. "
  "Reading any file takes the values in order from Y (any number per line) or XY columns, the calibration from XPERCHAN and OFFSET, joins multi-line titles, and takes each parameter from its own keyword with or without a unit.",
  CFG, "all data values, calibrations and parameter values; several data types, separators, column counts, title lengths and write orders",
  "tests compare small recorded spectra; lost digits, a lost title or state kept between two writes depend on the values and the history",
  ["rsciio/msa/_api.py"],
  [{"name": "parser", "where": "rsciio/msa/_api.py:parse_msa_string"}, {"name": "writer", "where": "rsciio/msa/_api.py:file_writer"}],
  note="up to 5 channels; texts from fixed sets; decimal text of a float trusted to round-trip when all digits are kept")
P("P08", "HyperSpy HDF5 files keep every part of the signal",
  "A signal written as .hspy and read back, lazily or not, from plain, dask, transposed, chunked or ragged data, has every data value, shape and data type, every item of every axis in order, the metadata, original metadata and learning results with the same nesting, list/tuple kinds, order, None values, empty containers, numbers, arrays and texts, its models and package information. "
  "Writing again with write_dataset=False replaces the other parts and leaves the stored data; no stale value of an item comes back. Chunk shapes chosen for any shape lie between 1 and the axis size and hold whole signals.",
  CFG, "all data values, calibrations, metadata leaves and (for chunks) axis sizes; the structures, data types and update pairs named",
  "the structure of metadata is open-ended and the values are arbitrary: a list that comes back in another order or an integer narrowed on the way shows only for particular lengths and values",
  ["rsciio/hspy/_api.py", "rsciio/_hierarchical.py"],
  [{"name": "writer", "where": "rsciio/_hierarchical.py:HierarchicalWriter"}, {"name": "reader", "where": "rsciio/_hierarchical.py:HierarchicalReader"}, {"name": "chunks", "where": "rsciio/_hierarchical.py:get_signal_chunks"}],
  note="h5py itself trusted: symbolic contents are kept beside a real scratch file; arrays up to 4 dimensions of size 3; keys without reserved prefixes or slashes; lists mixing only numbers and text come back as text")
P("P09", "HyperSpy zarr stores keep every part of the signal",
  "A signal written as .zspy to a directory, a zip archive or a store object and read back, lazily or not, from plain, dask, transposed, chunked or ragged data, has every data value, shape and data type, every item of every axis in order, the metadata, original metadata and learning results with the same nesting, list/tuple kinds, order, None values, empty containers, numbers, arrays and texts, its models and package information. "
  "Writing over a store leaves nothing of its previous content; with write_dataset=False the other parts are replaced and the stored data stay.",
  CFG, "all data values, calibrations and metadata leaves; the structures, data types, stores and update pairs named",
  "the structure of metadata is open-ended and the values are arbitrary; the code is shared with HDF5 but numbers, booleans and texts go through JSON here",
  ["rsciio/zspy/_api.py", "rsciio/_hierarchical.py"],
  [{"name": "writer", "where": "rsciio/zspy/_api.py:ZspyWriter"}, {"name": "reader", "where": "rsciio/_hierarchical.py:HierarchicalReader"}],
  note="zarr itself trusted: symbolic contents are kept beside a real scratch store; arrays up to 4 dimensions of size 3; keys without reserved prefixes or slashes; no complex or binary metadata")
P("P10", "Digital Micrograph files are read tag for tag and pixel for pixel",
  "Reading any DM3 or DM4 file of either byte order returns every tag (numbers of each type, texts, structs, arrays, nested and unnamed groups) under its name with its value, and every image but the thumbnails, in order, each with its own data, title, tags and calibration: values, shape and data type as stored, eagerly or lazily, in C or F order; scale, offset (minus origin times scale), units and names of each axis; the signal axes and type of images, spectra and spectrum images; colours as R, G, B, A; half-plane complex transforms completed by symmetry. "
  "Voltage, stage position, camera length or magnification, exposure, dwell time and angles reach the metadata in the documented units.",
  CFG, "all pixels, tag values, calibrations and instrument values; DM3 and DM4, both byte orders; every data type; the tag structures, shapes and modes named",
  "the tests read a few recorded little-endian files; a tag read at the wrong width or sign, or a calibration applied to the wrong axis, needs values those files do not contain",
  ["rsciio/digitalmicrograph/_api.py", "rsciio/utils/_readfile.py"],
  [{"name": "tag reader", "where": "rsciio/digitalmicrograph/_api.py:DigitalMicrographReader"}, {"name": "images", "where": "rsciio/digitalmicrograph/_api.py:ImageObject"}],
  note="images up to 4 dimensions of size 4; tag names and texts concrete; orientation of data types 27 and 28 outside the claim")
P("P11", "MRC files are read with the shape, values and calibration they hold",
  "Reading any MRC file of either byte order returns every pixel as stored, with the data type of its mode, after the header and extended header whatever their length; the dimensions in the order z, y, x (or the scan shape asked for), without those of length 1; scale, offset, units, name and role of each remaining axis those of its own dimension; every header field from its place. "
  "FEI extended headers give pixel size and stage values. Direct Electron files give shape, scales, units and names from the text file, put the frames of custom scans where the coordinates say (zeros elsewhere, repeats along their own axis), and attach related images under their own names, in whatever order the directory is listed.",
  CFG, "all pixels and header fields; each mode, both byte orders; the shapes, chunks and scan shapes named; every order of custom scan positions and of directory listing",
  "the tests read a few recorded files, all little endian and without singleton dimensions",
  ["rsciio/mrc/_api.py", "rsciio/utils/_distributed.py"],
  [{"name": "reader", "where": "rsciio/mrc/_api.py:file_reader"}, {"name": "Direct Electron text files", "where": "rsciio/mrc/_api.py:read_de_metadata_file"}, {"name": "related files", "where": "rsciio/mrc/_api.py:find_related_de_files"}],
  note="up to 8 frames of 3x3; Direct Electron values from small sets of texts")
P("P12", "TIA series keep every spectrum or image with its calibration and description",
  "Reading any .ser file of either version returns every valid element, from wherever the table of offsets puts it, at its scan position, with its data type, images top row first; elements never acquired are left out of one-dimensional series (or kept empty on request) and empty (nan for floats) in maps; scale, offset (through the calibrated element), units and names of navigation and signal axes in nm, 1/nm and eV; lazily the same. "
  "An .emi file gives all its series in order, each with its own description, date, time and units.",
  CFG, "all pixels, calibrations, calibrated elements, positions and time tags; the ten data types, both versions, the scan shapes and numbers of valid elements named; every mode and camera combination of the descriptions",
  "the tests read recorded files whose series are complete, whose calibrated element is 0 and which have few series each",
  ["rsciio/tia/_api.py"],
  [{"name": "series reader", "where": "rsciio/tia/_api.py:ser_reader"}, {"name": "emi reader", "where": "rsciio/tia/_api.py:emi_reader"}],
  note="up to 6 elements of 2x3; scans stored row by row; series without a dimension outside the claim")
P("P13", "Bruker maps count every pulse in its pixel and channel",
  "Reading any .bcf file, with the Cython or the Python decoder, gives every pixel of the map all its counts, however they are stored (16-bit pulses, 12-bit pulses, packed runs of nibbles, bytes, 16- or 32-bit numbers with their gain, additional pulses), absent pixels empty, wherever a pixel lies relative to the ends of blocks and in whatever order the chunks, tables and folders of the container are stored, compressed or not; downsampling sums the pixels, cutting off keeps the lower channels. "
  "The data set asked for is the one returned, with its own calibration; axes carry the horizontal and vertical pixel size and the energy calibration; images, detector, beam energy, real time, date and kind of microscope are those of the header. .spx files give their channels, calibration and detector.",
  CFG, "all pulses, gains, counts and additional pulses; the kinds of packing, container layouts, cut-offs and headers named; every alignment of a pixel to the end of a block",
  "the tests read a few recorded files, which use one kind of packing and blocks much longer than a pixel; the Python decoder is tested on one of them",
  ["rsciio/bruker/_api.py", "rsciio/bruker/unbcf_fast.pyx"],
  [{"name": "container", "where": "rsciio/bruker/_api.py:SFS_reader"}, {"name": "Cython decoder", "where": "rsciio/bruker/unbcf_fast.pyx:bin_to_numpy"}, {"name": "Python decoder", "where": "rsciio/bruker/_api.py:py_parse_hypermap"}],
  note="maps up to 4x3 pixels of 6 channels (1200 for long pixels); XML concrete; counts within the data type chosen from the average (known finding F70)")
P("P14", "JEOL maps, images and spectra are read event by event",
  "Reading any .pts file gives each X-ray event of the frames asked for one count in its own pixel and channel, and the SEM/STEM image the sum of its values, whether frames are summed or kept apart, densely or lazily, downsampled, energy-rebinned, cut off, from a list of frames (in any order, repeated), with known or unknown frame starts, and with frame shifts (which are not changed, crop the map to the common area and move its offsets); an incomplete last frame is left out or kept as asked. "
  "Sizes, names and calibration of each axis are those of the data. Images, spectra with their element and quantification tables, every value of the header tree, and every file of a workspace, in order, are returned with their calibration, instrument values and dates.",
  CFG, "all event energies, image values, pixels, channels and header values; the shapes, frame lists, shifts, downsampling and kinds of incomplete frame named",
  "the tests read a few recorded square maps, mostly without downsampling or shifts, and lazily only one",
  ["rsciio/jeol/_api.py"],
  [{"name": "maps", "where": "rsciio/jeol/_api.py:_readcube"}, {"name": "header tree", "where": "rsciio/jeol/_api.py:_parsejeol"}, {"name": "spectra", "where": "rsciio/jeol/_api.py:_read_eds"}],
  note="up to 18 frames of up to 8x8 pixels; event positions concrete, energies and image values symbolic; numba functions executed from their Python source")
P("P15", "EMD files of the NCEM kind keep data, axes and parameters",
  "Writing any signal to a NCEM EMD file and reading it, eagerly or lazily, gives back every value, data type, shape, title, name, unit and offset of each axis, its scale (up to the rounding of offset plus scale), and the microscope, sample, user and comments of the original metadata. "
  "Reading files of other programs gives every data set under its own name (never mixed with others because of similar names), transposed only where its dimensions are numbered from 1, the ones asked for in the order asked for; prismatic simulations with their parameters, stacked along depth with its calibration when uniform, or separately.",
  CFG, "all values, offsets and scales; the data types, shapes, chunks, units, group names and numberings named",
  "the tests write a few arrays and read recorded files with few, dissimilar group names",
  ["rsciio/emd/_emd_ncem.py", "rsciio/emd/_api.py"],
  [{"name": "reader and writer", "where": "rsciio/emd/_emd_ncem.py:EMD_NCEM"}],
  note="up to 24 values in up to 4 dimensions; h5py trusted for storage")
P("P16", "Velox EMD files and FEI streams give every count its pixel and channel",
  "Reading any Velox .emd file gives every image with its frames, rows and columns in place, EDS spectra, spectrum images in which every event of the stream counts once in its own frame, pixel and channel (summed over frames or not, from first_frame to last_frame, rebinned in energy, detectors added or apart, in the data type asked for, lazily or not, with or without a recorded number of frames), and EELS spectrum images; writing an array as a stream and reading it back gives the same array. "
  "Each has the scale, offset, units, names and order of its axes (physical sizes as stored, whatever the unit chosen to express them), its detector's title and metadata, the energy calibration, the local date and time; only the kinds of data asked for are returned.",
  CFG, "every stream of up to 4 values (up to 12 with the pixel markers placed), every pixel; the shapes, frames, detectors, calibrations, time zones and options named",
  "the tests read a few recorded files; which pixel an event lands in depends on the position of every marker before it",
  ["rsciio/emd/_emd_velox.py", "rsciio/utils/_fei_stream_readers.py"],
  [{"name": "streams", "where": "rsciio/utils/_fei_stream_readers.py"}, {"name": "reader", "where": "rsciio/emd/_emd_velox.py:FeiEMDReader"}],
  note="streams of up to 12 values, maps of up to 2x2 pixels and 3 frames; numba functions executed from their Python source; sparse arrays modelled as dense ones; a single set of axes (of the first detector) for all detectors")
P("P17", "MIB files give every frame of the window asked for, with its header",
  "Reading any Quantum Detectors .mib file (8, 16 or 32 bits, single or quad detector), from a path, lazily or not, in any chunks, or from a memory buffer, returns exactly the frames from first_frame to last_frame (Python indexing), each pixel in place, in the navigation shape asked for, given by the hdr file or shown by the pauses between lines; complete lines only when the acquisition was interrupted, a plain stack when the shape does not fit; and with the headers, exposures (ms) and timestamps of those same frames. "
  "Date, time, exposure, detector and every line of the hdr file are reported.",
  CFG, "every pixel; the bit depths, detectors, frame counts, windows, shapes, pauses and hdr files named",
  "the tests read a few recorded files; windows combined with shapes, interruptions and buffers are each read by other code",
  ["rsciio/quantumdetector/_api.py", "rsciio/utils/_distributed.py"],
  [{"name": "frames", "where": "rsciio/quantumdetector/_api.py:load_mib_data"}, {"name": "reader", "where": "rsciio/quantumdetector/_api.py:file_reader"}],
  note="up to 8 frames of 2x3 pixels; headers concrete; raw files outside the claim")
P("P18", "EMPAD files give every pixel of every frame with its calibration",
  "Reading any EMPAD file, series or scan, lazily or not, gives each frame its own 128x128 pixels without the two lines of footer, at its place in the scan, axes without those of length 1; series in ms, scan steps from the field of view (whichever way it is recorded), diffraction calibration from the user, else the file, else pixels, centred on the detector; date, time and the whole description. "
  "remove_nans replaces NaN, and nothing else, by zero.",
  CFG, "all values of the pixels named in every frame; the shapes, calibrations and ways of recording them named",
  "the tests read recorded files whose frames are replaced by random numbers and compare few pixels",
  ["rsciio/empad/_api.py"],
  [{"name": "frames", "where": "rsciio/empad/_api.py:_read_raw"}, {"name": "description", "where": "rsciio/empad/_api.py:_parse_xml"}],
  note="6 symbolic pixels and 40 concrete ones per frame, up to 6 frames; XML concrete; which of x and y comes first in a field of view of two numbers outside the claim")
P("P19", "Arina files give every frame, binned and corrected as asked",
  "Reading any arina master file returns the frames of all its data sets, in the order of their names, each pixel in place, in the navigation shape asked for (given whole, by one side, or square), refusing shapes which do not fit; binned by averaging blocks, multiplied by the flatfield correction (median over flatfield, 1 where it is 0) in float32, in the data type asked for; with the scan step of the metadata file in angstroms.",
  CFG, "every pixel; the frame shapes, data types, navigation shapes, flatfields and binning named",
  "the tests read square frames only and compare one configuration of each option",
  ["rsciio/arina/_api.py"],
  [{"name": "reader", "where": "rsciio/arina/_api.py:file_reader"}, {"name": "binning", "where": "rsciio/arina/_api.py:bin2D"}],
  note="up to 6 frames of up to 4x4; h5py trusted for storage; sums within the data type; 32-bit counts above 65535 without a data type asked for outside the claim")
P("P20", "NumPy files come back as they were saved",
  "Writing any array to a .npy file and reading it, or reading any .npy file of any format version, eagerly or lazily in any chunks, gives every value at its place with its data type, whether it is stored in C or Fortran order or in another byte order; dimensions of length 1 are dropped, the axes asked for are navigation axes, and the position of the data in the file is reported exactly. "
  "Lazy signals are refused without writing anything.",
  CFG, "every value; the shapes, data types, orders, versions, navigation axes and chunks named",
  "the tests save a few C-ordered arrays",
  ["rsciio/numpy/_api.py", "rsciio/utils/_tools.py", "rsciio/utils/_distributed.py"],
  [{"name": "reader", "where": "rsciio/numpy/_api.py:file_reader"}, {"name": "header", "where": "rsciio/utils/_tools.py:inspect_npy_bytes"}],
  note="up to 16 values in up to 4 dimensions, none of length 0")
P("P21", "PantaRhei files keep data, orientation and calibration; unpickling is safe",
  "Reading any .prz file, compressed or not, C or Fortran ordered, eagerly or lazily, gives every value with navigation axes (ScanY, ScanX, Index, PlotIndex) before signal axes, index dimensions of length 1 dropped, EELS energy axes reversed with their offset, each axis with its own name, role, scale, offset and units, and beam energy, angles, aperture, camera length, magnification, title and dates in the documented units. Signals written, lazily or not, without reserved axis names come back with the same data, type, axes, title and instrument values, the calibration in base units; EELS data keep the direction of a named energy axis. Files of images, stacks and spectra read and written again come back the same. "
  "Pickled metadata are read only when allowed, and then no name but those needed for arrays is ever resolved: any other is refused.",
  CFG, "every value, scale and offset; the shapes, content types, kinds, orders and metadata named; the names of functions listed",
  "the tests read one image and write few signals; which axis a calibration belongs to depends on the order of the content types",
  ["rsciio/pantarhei/_api.py", "rsciio/pantarhei/_restricted_unpickling.py"],
  [{"name": "import", "where": "rsciio/pantarhei/_api.py:import_pr"}, {"name": "export", "where": "rsciio/pantarhei/_api.py:export_pr"}, {"name": "unpickler", "where": "rsciio/pantarhei/_restricted_unpickling.py:RestrictedUnpickler"}],
  note="up to 24 values in up to 4 dimensions; metadata in files concrete; calibrations of written signals are exported but not read back by design; axes named Energy, ScanX, ScanY and titles with a full stop are known findings F101-F103")
P("P22", "EDAX files give every count and calibration from its own header field",
  "Reading an EDAX .spc spectrum, .spd map or .lsd line scan, of 8, 16 or 32 bits, in either byte order, of any header version, with the whole header or its main fields, eagerly or lazily in any chunks, gives the counts of every channel of every point in place from the position of the data named in the header (only the spectra recorded, for line scans); "
  "the energy calibration, angles, resolution, live time, beam energy, tilt and elements of the .spc file, the pixel sizes of the .ipr file and the distances of the .csv file, found beside the data or named by the user; and every header value from its own field. Without these files the data are returned uncalibrated.",
  CFG, "every count and the header values of all fields of the file specification; the shapes, sizes, byte orders, versions, chunks and side files named",
  "the tests read a few recorded little-endian files",
  ["rsciio/edax/_api.py", "rsciio/utils/_distributed.py"],
  [{"name": "spectra", "where": "rsciio/edax/_api.py:spc_reader, get_spc_dtype_list"}, {"name": "maps and line scans", "where": "rsciio/edax/_api.py:si_reader, get_spd_dtype_list, get_ipr_dtype_list"}],
  note="up to 24 counts; of array fields one element each; versions, sizes and elements concrete; the origin of the energy axis of maps without .spc file outside the claim")
P("P23", "Streak camera images keep pixels, calibration and comment entries",
  "Reading any Hamamatsu .img file of 8, 16 or 32 bits gives every pixel at its row and column; calibrated axes hold every value of their own table from the address named in the comment, columns are reversed together with the wavelengths so that wavelengths ascend, and uncalibrated axes count pixels. "
  "Every entry of the comment is reported in its own section, whatever brackets, commas or equal signs quoted texts hold, and date, time, exposure, frames, gain, binning, time range, modes, corrections, grating, wavelength and slit have the documented units; entries a file lacks are left out.",
  CFG, "every pixel, table entry, header value and number of the comment; the sizes, bit depths, texts and missing entries named",
  "the tests read five recorded files",
  ["rsciio/hamamatsu/_api.py"],
  [{"name": "reader", "where": "rsciio/hamamatsu/_api.py:IMGReader"}],
  note="up to 12 pixels; texts concrete; uniform axes on evenly spaced concrete tables; tables strictly monotonic")
P("P24", "Phenom projects give every image, spectrum, line and map with its own metadata",
  "Reading any .elid project of versions 0 to 4, whatever the sizes of the pieces the stream is decompressed in, gives one signal for each image and each MSA, spot, line, map, difference and region analysis, in order, each with all its counts (written in 1 to 5 bytes) at their point and channel, its own detector fields, times, positions, elements, oxides and energy calibration in keV; images with their pixel sizes, colours and date; maps the size of the scanned field. "
  "Constructive and project analyses are passed over without disturbing those that follow, and files that are no projects or of later versions are refused.",
  CFG, "every count, image value and floating point field; the versions, kinds, sizes, units and block sizes named",
  "the tests read one recorded project of each version",
  ["rsciio/phenom/_api.py"],
  [{"name": "reader", "where": "rsciio/phenom/_api.py:ElidReader"}],
  note="up to 12 counts per map; bz2 and tifffile trusted; energy calibration of lines and maps equal to that of their sum spectrum; analyses other than MSA under images without the microscope's tag outside the claim")
P("P25", "Renishaw measurements put every spectrum at its position with its calibration",
  "Reading any .wdf file, whatever the order of its blocks and unknown blocks between them, gives every intensity at its channel, channels in ascending order of the signal axis; maps in rows of the stated size with their own offset, scale and units, line scans with the length of their step, series with the origin and mean step of their own coordinate (no calibration where it is not ordered or does not change), "
  "and of unfinished maps the finished lines, with every origin array still from its own place. Header fields, the values of all parameter sets of any type, nested or not, under their own names, and laser, grating, detector, frames and exposure are those stored. Files without data or signal axis, or with contradictory sizes, are refused.",
  CFG, "every intensity, signal axis value, header field and stored number; the sizes, map types, origins, units and block orders named",
  "the tests read recorded files only; whether values go to the right name depends on how each file is laid out",
  ["rsciio/renishaw/_api.py"],
  [{"name": "reader", "where": "rsciio/renishaw/_api.py:WDFReader"}],
  note="up to 27 intensities; origins of series concrete; alternating and line focus maps (documented as not supported), white light images outside the claim")
P("P26", "Delmic acquisitions come with every pixel, axis and date of the file",
  "Reading a Delmic HDF5 file gives, for the kinds of acquisition asked for and in the documented order, every stored pixel at its place with empty dimensions dropped and the others ordered Z, Y, X, time, angle, wavelength; spatial axes lie around the stored centre with Y pointing up, times and wavelengths are those stored, all with matching SI prefixes, "
  "and an axis without calibration still has its length. Angle-resolved images become one signal per polarization, placed on the scan of the electron image in the order they were acquired, whatever their order in the file; where the scan cannot be put together every image is still returned. Values marked invalid are left out, the others, the date and the polarization are those stored. Files without wanted acquisitions are refused.",
  CFG, "every pixel, image centre, acquisition time, stored number and order of acquisition; the shapes, titles, states, pixel sizes and wavelengths named",
  "the tests read recorded files whose acquisitions happen to be stored in order and completely",
  ["rsciio/delmic/_api.py"],
  [{"name": "reader", "where": "rsciio/delmic/_api.py:file_reader"}],
  note="scans up to 2 x 2 images, h5py trusted for storage; acquisitions made at the same instant outside the claim")
P("P27", "TopSpin scans and images come with every frame at its position",
  "Reading an .app5 file, all of it or one session or dataset by its path, gives every diffraction frame at its position of the scan, whatever the order in which frames lie in the file and the direction of the scan, with beam positions, units and calibration of the frames those stored and the axes in the order of the data; every image with its own pixels and calibration; "
  "with title, date and notes of its own session and every number, text and switch of procedure and hardware as stored.",
  CFG, "every pixel, calibration and stored number, all combinations of the beam positions and steps listed; the shapes and layouts named",
  "the tests read three recorded files with equal X and Y calibrations and scans in one direction",
  ["rsciio/topspin/_api.py"],
  [{"name": "reader", "where": "rsciio/topspin/_api.py:file_reader"}],
  note="up to 3 x 4 frames; h5py and the XML parser trusted; exchanged calibrations of images are a known finding (F122)")
P("P28", "NeXus files keep signals and metadata, and the datasets asked for are read",
  "Writing signals to a NeXus file and reading them back gives the same data (eager or lazy), axes (uniform ones with their direction, scale, offset, name, units and kind), title, metadata, original metadata and learning results, each signal its own; "
  "files of other programs are read with every value and with the axes their attributes describe, ascending or descending; exactly the datasets selected by key, path, links or default are read, in the order of the file.",
  CFG, "every value of data and metadata, the calibrations listed in all combinations, any iteration order of sets; the shapes, file layouts and selections named",
  "tests read a few files, with ascending axes and ASCII texts, and compare titles as sets",
  ["rsciio/nexus/_api.py", "rsciio/utils/hdf5.py"],
  [{"name": "reader", "where": "rsciio/nexus/_api.py:file_reader"}, {"name": "writer", "where": "rsciio/nexus/_api.py:file_writer"}, {"name": "selection", "where": "rsciio/nexus/_api.py:_find_data"}],
  note="up to 2 x 2 x 2 x 2; h5py trusted; non-uniform axes are documented to come back as indices, texts in arrays as bytes")
P("P29", "Tofwerk FIB-SIMS files give every ion count at its peak and place",
  "Reading a Tofwerk file gives the nominal and the additional peaks (in order of mass, within the mass and depth ranges asked for, eager or lazy, cast or not) with the stored counts at their depth, row and column, the sum spectrum over the ascending part of its mass axis, images and events of each slice, calibrated axes and metadata of the file; "
  "for raw files the counts are the ions within each integration window divided by waveforms and channels, with numba and without it.",
  CFG, "every count, image, spectrum and (in the counting) event value; the peak tables, ranges and mass calibrations listed in all combinations",
  "tests use small files and compare the two counting paths on random events",
  ["rsciio/tofwerk/_api.py", "rsciio/tofwerk/_reconstruction.py"],
  [{"name": "reader", "where": "rsciio/tofwerk/_api.py:file_reader"}, {"name": "counting", "where": "rsciio/tofwerk/_reconstruction.py:compute_peak_data_from_eventlist"}],
  note="up to 3 x 2 x 3 pixels, 5 peaks, 8 samples; windows which do not overlap; h5py and the numba compiler trusted")
P("P30", "TIFF images keep pixels, colours and calibration",
  "Writing a 2-D image or 3-D stack, plain or in colours, to a TIFF file and reading it back (eager or lazy) gives the same pixels, scales of any magnitude and sign, offsets, units, date and noise model; several images, stacks and colour planes of other programs come back one by one or as stacks, complete and in order; "
  "the calibration written by ImageJ, DigitalMicrograph, FEI, Zeiss, TVIPS, Olympus, JEOL and Hamamatsu instruments, or by the resolution tags, is read in its own unit and along its own axis, and the instrument metadata come with their units converted.",
  CFG, "every pixel, DM calibration and pixel size passed through as it is; the scales, offsets, resolutions and instrument values listed in all combinations",
  "the tests read a few recorded files, almost all with square pixels, and write scales of the order of one",
  ["rsciio/tiff/_api.py", "rsciio/utils/rgb.py"],
  [{"name": "reader", "where": "rsciio/tiff/_api.py:file_reader"}, {"name": "writer", "where": "rsciio/tiff/_api.py:file_writer"}, {"name": "calibration", "where": "rsciio/tiff/_api.py:_parse_scale_unit"}],
  note="up to 3 x 2 x 3; tifffile trusted for pages and tags, parsed tags of microscopes handed to the reader; 4-D data and units outside latin-1 outside the claim (documented)")
P("P31", "Standard images and colour arrays keep pixels, colours and calibration",
  "Writing an image, grey or in colours, to a standard format and reading it back (eager or lazy) gives every pixel and colour, also for images of one row or column; images whose colours are equal everywhere are read as grey ones, and only those; animated images come with an axis for their frames. "
  "Axes have the size, name, index and, from the exif tags, field of view, origin and unit of their own direction. Figures have the size asked for, show the pixels and get a scale bar with the scale and unit of the axes, or are refused when these differ. "
  "Colour arrays convert to structured arrays and back without change, with numpy or dask.",
  CFG, "every pixel and origin; the fields of view, units and scales listed in all combinations; the shapes and figure sizes named",
  "tests read square images with few patterns, none lazily, none with equal green and blue",
  ["rsciio/image/_api.py", "rsciio/utils/_image.py", "rsciio/utils/rgb.py"],
  [{"name": "reader", "where": "rsciio/image/_api.py:file_reader"}, {"name": "writer", "where": "rsciio/image/_api.py:file_writer"}, {"name": "colours", "where": "rsciio/utils/rgb.py:regular_array2rgbx"}],
  note="up to 3 x 2 pixels; imageio, pillow and matplotlib trusted; alpha of grey images and images of two channels outside the claim")
P("P32", "TriVista: every spectrum is at its position, with its axes and settings",
  "Reading a .tvf file gives every count at the channel, frame, window and stage position it was recorded at, for spectra, series, line scans, maps and glued windows. "
  "The signal axis holds the stored values (or their linear fit), the stage axes the offset, step and number of points of their own direction, the time axis the interval between frames. "
  "The metadata describe the detector, laser, objective, spectrometers and gratings in use, for any number of them installed, also with the original metadata unfiltered.",
  CFG, "every count; calibrations and settings listed in all combinations; the layouts named",
  "tests read a handful of files of one setup, with several detectors, lasers and spectrometers",
  ["rsciio/trivista/_api.py", "rsciio/utils/xml.py"],
  [{"name": "reader", "where": "rsciio/trivista/_api.py:file_reader"}],
  note="up to 3 x 2 spectra of 4 channels; the XML library is trusted")
P("P33", "Jobin-Yvon: every spectrum is at its position, with its axes and settings",
  "Reading a LabSpec .xml file gives every count at the channel (in ascending order of the signal axis) and stage position it was recorded at, for spectra, line scans and maps, with one channel or more. "
  "The signal axis holds the stored values (or their linear fit) with the quantity that belongs to its unit, the stage axes the values of their own direction. "
  "Each setting ends up in its place in the metadata, in the unit declared there; files without a setting, or with one left empty, are read, with nothing invented.",
  CFG, "every count; axes listed in all combinations; each setting left out or left empty",
  "tests read nine files of one instrument, all with the complete settings",
  ["rsciio/jobinyvon/_api.py"],
  [{"name": "reader", "where": "rsciio/jobinyvon/_api.py:file_reader"}],
  note="up to 3 x 2 spectra of 4 channels; the XML library is trusted; equidistant stage positions")
P("P34", "Logs of in-situ experiments keep every reading, its time and the notes",
  "Reading a log of DENSsolutions Impulse, DENSsolutions DigiHeater or Protochips gives one signal per recorded quantity, with every reading in order, its quantity and unit. "
  "The time axis has the mean interval of the time stamps (their linear fit for DigiHeater, also over midnight), the date and time of the experiment are kept, and the notes are kept whole, with their times. "
  "Logs without metadata file or calibration are read; files of another kind, or empty ones, are refused.",
  CFG, "every reading; time stamps, notes and settings listed in all combinations",
  "tests read one or two files per instrument, never with notes holding commas or #, over midnight or without metadata",
  ["rsciio/impulse/_api.py", "rsciio/protochips/_api.py", "rsciio/dens/_api.py"],
  [{"name": "Impulse", "where": "rsciio/impulse/_api.py:file_reader"}, {"name": "Protochips", "where": "rsciio/protochips/_api.py:file_reader"}, {"name": "DigiHeater", "where": "rsciio/dens/_api.py:file_reader"}],
  note="up to 6 rows, at least 4 (2 for DigiHeater); the text parsers of numpy are trusted; the first row of Protochips logs without user is a known finding")
P("P35", "Quadstar: every intensity is at its mass, trace and cycle",
  "Reading an analog scan (.sac) gives one signal per data trace, with every intensity at its cycle and mass; intensities above the full scale of their own trace and cycle, and only those, are NaN. Reading a bargraph (.sbc) gives every intensity at its cycle and mass. "
  "The mass axis starts at the first mass, with the step of the trace; the time axis has the (mean interval of the) times of the cycles. Titles, units, comment and date come from the file; files without data or shorter than announced are refused.",
  CFG, "every float as intensity, NaN and infinities included; full scales, times and layouts listed in all combinations",
  "tests read a few files without overflow, comments or gaps between traces",
  ["rsciio/quadstar/_api.py"],
  [{"name": "reader", "where": "rsciio/quadstar/_api.py:file_reader"}],
  note="up to 4 cycles of 3 traces of 6 values")
P("P36", "MRCZ files keep values, scales and acquisition parameters",
  "Writing a stack as MRCZ and reading it back (eager or lazy, either byte order, any compressor, in the background or not) gives every value, and each axis its own size, name and scale; lengths in other units come back in nm with the same size. "
  "Beam energy and gain go to their fields of the header, and from there to their places in the metadata; all other metadata are kept, whatever the keys, without fields of the header among them, and the signal itself stays as it was. Compression is what was asked for; other memory map modes are refused.",
  CFG, "every value and scale, beam energy and gain; units and options listed in all combinations; the shapes and types named",
  "tests write one stack with all scales in nm and compare the values",
  ["rsciio/mrcz/_api.py", "rsciio/utils/_dictionary.py"],
  [{"name": "reader", "where": "rsciio/mrcz/_api.py:file_reader"}, {"name": "writer", "where": "rsciio/mrcz/_api.py:file_writer"}],
  note="up to 2 x 3 x 4 pixels; the mrcz library is trusted for the file's layout; offsets of axes are not part of the format")
P("P37", "USID files keep values, axes and parameters, dataset by dataset",
  "Saving a signal as USID HDF5, in a new file or a further measurement of an existing one, and reading it back gives every value at its place, and every dimension of more than one point its own name, unit, size, scale and offset; axes without name or unit get a placeholder. "
  "All entries of the metadata are read back as parameters of their own measurement. Every main dataset is read, or only the one asked for; structured datasets give one signal per field, with the quantity and unit of the field; unevenly varied dimensions are counted instead, or refused when asked for.",
  CFG, "every value; calibrations, names and units listed in all combinations; the layouts named",
  "tests compare round trips of one calibration, none of the parameters of the measurement",
  ["rsciio/usid/_api.py"],
  [{"name": "reader", "where": "rsciio/usid/_api.py:file_reader"}, {"name": "writer", "where": "rsciio/usid/_api.py:file_writer"}],
  note="up to 2 x 3 x 2 values, 24 of structured and uneven datasets; pyUSID is trusted for the layout of the file (numpy.product supplied to it)")
