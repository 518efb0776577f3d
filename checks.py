# property id -> harness and the texts that go into evidence and MANIFEST
CHECKS = {
"P01": dict(harness="h_params", technique="stateful property-based testing against a reference model (six std::map)",
  rule="random op sequences (set/overwrite/copy/assign/destroy/read) over several parameter sets, compared with a reference model; non-trivial: >=3 writes and at least one overwrite or copy (many_keys: >20 entries)",
  note="Exact comparison with an independent model after random histories; sampling, not exhaustive."),
"P20": dict(harness="h_calo", technique="stateful property-based testing against a reference model",
  rule="random sequences of add/position layer with interleaved queries on barrels and endcaps; non-trivial: at least two layers",
  note="Reference accumulation recomputed independently; sampling."),
"P22": dict(harness="h_vector", technique="property-based testing of algebraic laws and coordinate round trips",
  rule="random vectors and scalars over many magnitudes and special values; non-trivial: no zero component / independent vectors",
  note="Laws checked to floating-point accuracy; sampling."),
"P10": dict(harness="h_pads", tests="pad_numbering refused_rows illegal_index", technique="property-based testing against an independent reference model of pad layouts",
  rule="random layouts of all four kinds with arbitrary parameters, row histories interleaved with queries and clones; every row, out-of-range rows and pads; non-trivial: >=2 rows and >=4 pads",
  note="Index arithmetic compared with an independent model; sampling."),
"P11": dict(harness="h_pads", tests="pad_geometry inside", technique="property-based testing against an independent reference model of pad layouts",
  rule="random layouts of all four kinds; all rows, first/last/random pads, random points in, around and outside pads in any representation of phi; non-trivial: >=2 rows and >=4 pads (inside: points both inside and outside)",
  note="Geometry recomputed from the layout parameters; points closer than 1e-9 (relative) to a border are not judged; sampling."),
"P12": dict(harness="h_pads", tests="nearest_pad without_pads", technique="property-based testing against brute-force nearest search",
  rule="random layouts of all four kinds, 25 points per layout in/around/outside pads plus pad centres; layouts whose inner rows are too short for a pad or that have no pad at all; non-trivial: >=2 rows and >=4 pads (without_pads: rows without pads and points in them)",
  note="Brute-force minimal distance over all rows from an independent model; sampling."),
"P13": dict(harness="h_pads h_tpc", tests="distance_to_pad distance_to_module", technique="property-based testing against independent computational geometry",
  rule="random layouts of all four kinds, 25 (point, pad) pairs each; non-trivial: points both inside and outside pads",
  note="Distance recomputed from cartesian segments; tolerance 3e-8 of the size of the plane; sampling."),
"P14": dict(harness="h_tpc", tests="transform module_queries module_extent", technique="property-based testing against an independent rigid-motion model and the local pad layout as differential oracle",
  rule="random modules over all layout kinds, offsets, angles, end caps, borders and orders of setting them, 10-40 points each; non-trivial: rotated or shifted module with >=2 pads",
  note="Transformations recomputed in cartesian coordinates; answers closer than 1e-9 (relative) to a border are not judged; sampling."),
"P15": dict(harness="h_tpc", tests="tpc_queries global_index", technique="stateful property-based testing against a reference model and exhaustive per-module search",
  rule="random histories of adding modules (all layout kinds, both halves, with and without z), refused additions, drift length changes, then 10 points in 2D and 3D; non-trivial: at least two modules",
  note="Half membership and cathode come from an independent model, per-module answers from the library (checked by P13/P14); when only some modules have a z position 3D queries use z beyond all modules; sampling."),
}
CHECKS.update({
"P19": dict(harness="h_planes", tests="ftd", technique="property-based testing against a reference model of the disk layout",
  rule="random disk layouts (0-16 layers, up to 40 petals, up to 200 sensors, either side), all layers on both sides, first/last/random petals and sensors in and out of range; non-trivial: >=2 layers",
  note="All quantities compared exactly; z positions recomputed from the documented rule; double-sided petals have an even number of sensors and no petal sits at z=0 (undefined by the documentation); sampling."),
"P21": dict(harness="h_planes", tests="siplanes trackerplanes", technique="stateful property-based testing against a reference model",
  rule="random histories of adding layers/DUT (both call forms), updating single quantities, changing the caller's object afterwards, lookups by index and ID; non-trivial: >=2 layers",
  note="Bitwise comparison of every quantity of every layer after random histories; sampling."),
})
CHECKS.update({
"P02": dict(harness="h_mgr", technique="stateful property-based testing against a reference model of the slots",
  rule="random histories of storing, replacing and storing again in all 23 slots, named sets, materials (also duplicates) and the name, with full comparison in between and at the end; non-trivial: >=3 stores with a replacement, a refused material or a material",
  note="Object identity and bitwise content compared with an independent model; destruction checked by the address sanitizer; sampling."),
})
CHECKS.update({
"P03": dict(harness="h_xml", tests="xml_calo", technique="round-trip property-based testing of generated geometries through files, against an independent specification",
  rule="random geometries over calorimeters (all slots, runs of equal and near-equal layers), materials, field, name and parameter sets with arbitrary text and numbers; written, read, compared with the specification, written again; non-trivial: >=2 detectors/sets/materials",
  note="Compared with the specification at the written precision (1e-9), files byte by byte; sampling."),
"P04": dict(harness="h_xml", tests="xml_trackers", technique="round-trip property-based testing of generated geometries through files, against an independent specification",
  rule="random ladder trackers, disks and telescopes with arbitrary numbers and texts; written, read, compared with the specification, written again; non-trivial: >=1 tracker",
  note="Compared with the specification at the written precision (1e-9), files byte by byte; resolutions are non-negative and phi0 is 0 or >=1e-5; sampling."),
"P05": dict(harness="h_xml", tests="xml_tpc", technique="round-trip property-based testing of generated geometries through files, against an independent specification",
  rule="random TPCs with 0-6 modules or one plain pad plane, all pad layout kinds, both coordinate types; written, read, compared with the specification, written again; non-trivial: >=1 module",
  note="Layouts compared row by row at the written precision; layouts whose integer pad counts hinge on rounding are not generated; sampling."),
})
CHECKS.update({
"P16": dict(harness="h_copy", technique="stateful property-based testing: random copy/assign/modify/destroy histories against a model per object",
  rule="pools of up to 5 objects of one kind (4 pad layouts, TPC modules, TPCs, parameter sets, calorimeters, 4 trackers, field) under random copy, clone, assignment (also to itself), modification and destruction; non-trivial: at least one copy or assignment and one modification or destruction",
  note="Every object compared with its own specification (and, for pad layouts and TPCs, with a freshly built one answering random queries) after each history; double deletion and use after free reported by the address sanitizer; sampling."),
})
CHECKS.update({
"P17": dict(harness="h_zplanar", tests="ladder_points", technique="property-based testing against an independent box model",
  rule="random ladder detectors (1-6 layers, 0-24 ladders, any phi0, offsets also beyond the ladder, gap, with and without shell), 30 points each in, around, near the borders of and far from the boxes, also on the axes; non-trivial: points both inside and outside",
  note="Boxes recomputed from the layer description; points closer than 2.5e-4*(1+thickness) to a box surface (documented-in-code tolerance 1e-4) are not judged; with overlapping ladders any containing box is accepted as sensor ID; sampling."),
"P29": dict(harness="h_zplanar", tests="ladder_angles", technique="property-based testing against the corners and chords of an independent box model",
  rule="random ladder detectors as in P17, the first ladder and sensitive area of every layer, 6 lines from the axis each (spread over the covered range, near its borders, anywhere); invalid layer indices; non-trivial: lines through both faces and lines that leave through a side",
  note="Angles modulo a turn to 1e-11, path lengths to 1e-9; lines within 1e-7 of a corner are not judged; sampling."),
"P18": dict(harness="h_zplanar", tests="ladder_distance ladder_intersection", technique="property-based testing against independent computational geometry (box distance, slab intersection)",
  rule="random ladder detectors as in P17, 16 points / 20 lines each (from the origin, from points inside and outside, axis-parallel, aimed at ladders); non-trivial: at least two points outside the ladders / lines that hit and lines that miss",
  note="Distances exact to 1e-9 of the detector size; lines that graze a box within 1e-7 of the size and starts inside a ladder are not judged; sampling."),
})
CHECKS.update({
"P23": dict(harness="h_surf", technique="property-based testing against an independent rigid-motion and polygon model; stateful testing of the store",
  rule="random frames (any rotation and origin), rectangles, trapezoids (also triangles and empty ones) or no boundary, 20 points each in, around and near the border; stores of 0-12 surfaces with duplicate IDs, unknown IDs and second fillings; non-trivial: points inside and outside / at least two surfaces",
  note="Coordinates exact to 1e-12 of the size; points closer than 1e-9 (relative) to a border are not judged; sampling."),
})
CHECKS.update({
"P24": dict(harness="h_print", programs=["printParameters"], technique="property-based testing: printed text of generated geometries parsed against the specification, plus repetition and composition relations",
  rule="random geometries over all slots with arbitrary numbers (also 1e300), long texts and several stream precisions; every printed object and the whole manager; the printParameters program on written files; non-trivial: at least two detectors, sets or materials",
  note="Every announced value is located in order and compared to the printed digits; runs of equal calorimeter layers may be abbreviated; headings of absent subdetectors are not judged; sampling."),
})
CHECKS.update({
"P08": dict(harness="h_tree", technique="model-based property testing: random document trees through files, streams, an independent reader and an independent writer; random edit histories against an ordered-list model",
  rule="random documents (declaration kinds, byte and UTF-8 encodings, comments, unknown tags, texts and attribute values with markup, control and non-ASCII characters, long values, deep chains) and histories of up to 40 edits; non-trivial: >=4 nodes and attributes / >=3 edits",
  note="The written bytes are also read by an independent strict reader and the parser is also fed by an independent writer with free formatting; comments without '-->', valid UTF-8 in UTF-8 documents, no byte order marks inside texts; white space condensing on; sampling."),
})
CHECKS.update({
"P06": dict(harness="h_read", technique="property-based testing: files written by an independent writer with free spelling, order and formatting, read and compared with the specification",
  rule="random geometries over all subdetectors written in random spellings (numbers, quotes, entities, white space, CRLF, comments also named like tags, unknown tags and attributes, element and attribute order, values as attribute or text, repeats grouped at random, optional attributes left out, old and new TPC syntax, several module sections with defaults and running IDs, names in any case), plus refused files; non-trivial: >=2 parts / >=2 modules",
  note="Values compared bit by bit (pad layouts to 1e-12); sampling."),
})
CHECKS.update({
"P07": dict(harness="h_fuzz", technique="mutation fuzzing of generated valid geometry files (bytes, markup, elements, attributes, truncation) with sanitizers and an exception-type oracle",
  rule="valid files from the library's and an independent writer, damaged by 1-6 byte or markup edits or 1-4 element/attribute edits; one required attribute or element removed; cut off before the end of the root; soups of markup fragments; directories, missing, empty, deeply nested files and NUL bytes; non-trivial: every damaged file (soups: >=3 fragments)",
  note="Each file is read twice by one reader; accepted geometries are printed, queried and written. Files with counts or pad sizes beyond 2e5 or below 1e-4 (huge geometries) are not read; sampling."),
})
CHECKS.update({
"P09": dict(harness="h_merge", programs=["mergeXML"], technique="model-based property testing: generated pairs of geometry files against a reference merge of element trees, plus union-of-geometries, self-merge and repetition relations",
  rule="pairs of variants of one random geometry file (elements and attributes left out, changed, added, comments, free formatting); pairs of geometries with parts dealt to one or both files; a file with itself; unusable pairs; the mergeXML program on such pairs; non-trivial: the recessive file contributes something / >=2 parts",
  note="Expected result computed on generated trees; comments are not judged; sampling."),
})
CHECKS.update({
"P25": dict(harness="h_matmap", sources=["geartgeo/*.cc"], technique="model-based property testing: maps over synthetic budgets against an independent inverse-distance interpolation",
  rule="random grids in all three coordinate systems (0-40 steps per axis, decimal and arbitrary bounds), all or the edge grid points, 40 points inside, on planes and in the last cells, points outside; refused grids; histories of one factory; non-trivial: >=2 axes with steps / >=2 different maps",
  note="The distance properties behind the map are a synthetic smooth function (no ROOT here); on a grid plane the cells of both sides are accepted, points within 1e-7 of the 1e-5 radius of a grid point are not judged; sampling."),
})
CHECKS.update({
"P26": dict(harness="h_tgeo", sources=["geartgeo/*.cc"], technique="model-based property testing: nested boxes tracked through a stand-in for ROOT against an independent segment decomposition",
  rule="random trees of nested boxes (up to 25 per level, 5 levels, rotated and shifted frames, some materials without radiation or interaction length), histories of 12 queries per object (new and repeated lines, points to themselves, starts outside, lines starting next to a boundary, navigation that gets stuck); non-trivial: >=2 lines through >=2 boxes / >=3 points below the world",
  note="ROOT is not installed: src/geartgeo runs on a stand-in with the documented semantics of TGeoNavigator; lines end at least 1e-3 from boundaries and have no piece below 1e-3 except the first; sampling."),
"P27": dict(harness="h_handler", technique="property-based testing: single-element round trips, and histories of the handler list against a reference model with instrumented handlers",
  rule="random geometries written and read element by element, without and with a manager; every parameter kind given to every handler; histories of setting, replacing and looking up handlers between reading files of detectors of those types; helper functions on random elements; non-trivial: >=2 elements / a wrong kind / a file read with own handlers set / >=2 attributes or children",
  note="Compared with the specification at the written precision (1e-9); handlers count their calls and life times; sampling."),
"P28": dict(harness="h_cga", sources=["gearcga/*.cc"], flags="-std=gnu++14", technique="model-based property testing: nested boxes with fields and cells behind a stand-in for Mokka's CGA interface",
  rule="random trees of nested boxes with materials, linear fields, cells and regions; histories of 10 lines (new, repeated, reversed) and 25 points per object; sequences of objects of both kinds in a fresh process; non-trivial: >=3 lines through >=2 boxes / >=3 points below the world / >=2 objects",
  note="Mokka is not installed: src/gearcga runs on a stand-in that takes cm where Mokka does (CGABeamOn) and mm elsewhere; positions within rounding of a boundary are not judged; sampling."),
})
