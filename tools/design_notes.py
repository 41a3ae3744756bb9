ORACLE = {
"P01": "the block-file layout written down in the check (field offsets, 6-byte frame headers, frame n at (n div NX, n mod NX)); round trip compared cell by cell.",
"P02": "the rpl keys and the LISPIX record orders; the expected position of each raw value is computed by the check.",
"P03": "the documented stream layout; expected frame of each scan position computed from the definition (start + position, odd lines reversed and shifted by the hysteresis; first frame with the rotator index).",
"P04": "the Semper record layout (labels, padded rows, layer order) laid out by the check.",
"P05": "the header table of the format and raw → value formula; rounding and ends of the integer range as obligations over all points.",
"P06": "plain indexing of the file as one array; last position listed wins.",
"P07": "the EMSA/MAS keyword table; values as decimal strings whose digits are kept symbolic as opaque tokens.",
"P08": "structural equality of the whole dictionary (types included, lists and tuples apart), writer leaves its input unchanged.",
"P09": "as P08, zarr back end.",
"P10": "a DM3/DM4 tag tree written by the check, in both byte orders, with the data type table of the format.",
"P11": "MRC2014 header offsets; Direct Electron metadata rules for scans.",
"P12": "the SER/EMI layout by byte offset, series elements in tag order.",
"P13": "an SFS container with its table and a BCF instruction stream generated by the check from the events wanted; Python and Cython decoders must agree with it.",
"P14": "a .pts event stream (x/y positions, energies, image values) generated from the events wanted; maps by counting.",
"P15": "the EMD 0.2 layout; the dimension numbering rule.",
"P16": "counting of gates before each value of the stream.",
"P17": "the raw MIB frame layout (headers + pixels), windows by Python slicing of the list of frames.",
"P18": "130 rows of 128 float32, scan from the XML.",
"P19": "concatenation of the data sets in name order, block means in rational arithmetic, flatfield in float32.",
"P20": "the .npy format specification; header of every version written by the check.",
"P21": "the .prz content-type rules; a list of all callables resolvable by a pickle, only the white-listed ones may be resolved.",
"P22": "the field positions of the published file specifications, written as absolute offsets in the check.",
"P23": "the ITEX layout (64 byte header, comment, pixels, float32 tables at the addresses of the comment), comment text composed by the check.",
"P24": "the EID2 stream composed field by field by the check for each version; unit factors and the periodic table written out in the check.",
"P25": "the WDF block and PSET layout, written block by block in the check; positions by row-major order.",
"P26": "the SVI/Odemis layout, written in the check; dimension order, prefixes and image positions recomputed; rank of an acquisition counted from the times.",
"P27": "an .app5 file written in the check, frames filled in at the offsets HDF5 gave them; frame k lies at row k // nx, column k % nx.",
"P28": "the signal given to the writer; for foreign files the arrays and attributes put into the file with h5py by the check.",
"P29": "columns of the stored array picked by label and mass; ions counted event by event with plain loops over the windows.",
"P30": "the signal given to the writer; for other programs the tag values put in by the check, pixel sizes by x and y written out, resolution as pixels per inch or centimetre.",
"P31": "the array given to the writer or handed out by the stand-in; equality of the three colours decided pixel by pixel; sizes in pixels of the figure recomputed.",
"P32": "the file composed by the check: counts, positions and settings compared one by one; the fit recomputed by least squares.",
"P33": 'the file composed by the check: counts, positions and settings compared one by one; the fit recomputed by least squares.',
"P34": 'the log written by the check: readings compared one by one, the time step and fit recomputed.',
"P35": 'the bytes composed by the check from the layout described in the module; overflow decided by the solver for each value.',
"P36": "the array, scales, units and metadata handed to the writer, against the reader's output through a stand-in for the mrcz library",
"P37": "the values, axes and metadata handed to the writer (or to pyUSID), against the reader's output; values pass through pyUSID as numbers naming them",
}
