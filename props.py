#!/usr/bin/env python3
"""Source of properties.jsonl:  python3 props.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe, "hook_needed": None}})

I = "src/gearimpl/"; X = "src/gearxml/"; HI = "include/gear/gearimpl/"; H = "include/gear/"

p("P01", "Named parameters: last value written per type and key is what is read back",
  "A parameter set behaves as six independent maps (int, double, string and vectors of each): reading a key returns exactly the value last set for that type and key, and setting one type or key never changes another. The key listing of each type is exactly the set of keys written, each once, and reading a key never written for that type raises the unknown-parameter error. A copy holds the same content and is independent of the original afterwards.",
  ["histories"], "every sequence of set/get/list/copy operations over arbitrary keys, values and types",
  "The existing programs read a handful of fixed keys from example files and print them; nothing compares a value, and no test interleaves types, overwrites or copies.",
  [I + "GearParametersImpl.cc", HI + "GearParametersImpl.h", H + "GearParameters.h"],
  [("typed maps and key listings", I + "GearParametersImpl.cc")], ["gear::GearParameters getters and key lists"],
  [("six maps", "key to value per type", HI + "GearParametersImpl.h")])

p("P02", "Geometry manager: every slot returns what was last stored in it, or an error",
  "The manager returns for each subdetector, the field, the detector name, each named parameter set and each material exactly the object last stored there, whatever else was stored in any order; setting one slot never affects another, and an unset slot or unknown name raises the unknown-parameter error. Named sets and materials are listed exactly once each, a second material of a registered name is refused without changing the first, and forward calorimeters always offer a beam crossing angle (their own value, or 0 if they had none).",
  ["histories"], "every sequence of set/get/register operations on one manager, over all slots and names",
  "Each example file fills one fixed combination of slots once; no test checks isolation of slots, replacement, duplicate materials or which error an empty slot raises.",
  [I + "GearMgrImpl.cc", HI + "GearMgrImpl.h", H + "GearMgr.h"],
  [("slot getters/setters", I + "GearMgrImpl.cc"), ("registerSimpleMaterial", I + "GearMgrImpl.cc")], ["gear::GearMgr interface"],
  [("slots", "one pointer per subdetector plus maps of parameter sets and materials", HI + "GearMgrImpl.h")])

p("P03", "XML round trip of calorimeters, materials, field, names and parameter sets",
  "Writing a geometry to XML and reading it back yields the same detector name, calorimeters (type, symmetry order, phi0, extent, every layer's distance, thickness, absorber and cell sizes), materials, constant magnetic field and named parameter sets, with every number equal to the written precision (1e-9 relative) and nothing added, dropped or exchanged between subdetectors. User parameters attached to any subdetector survive with their type, key and all elements (string elements being blank-free words). Writing the re-read geometry again gives an identical file.",
  ["inputs"], "all geometries over any subset of slots, any layer sequence (including near-equal neighbouring layers), any finite numbers and any printable or markup characters in strings (no character references; layers contiguous, the only stacks the format can express)",
  "testXMLOut and testXMLCopy write files for a few fixed geometries and never compare what is read back with what was written.",
  [X + "GearXML.cc", X + "CalorimeterParametersXML.cc", X + "GearParametersXML.cc", X + "SimpleMaterialXML.cc", X + "ConstantBFieldXML.cc", X + "tinyxml.cc"],
  [("write", X + "GearXML.cc createXMLFile and each toXML"), ("read", X + "GearXML.cc createGearMgr and each fromXML")],
  ["gear::GearXML::createXMLFile followed by gear::GearXML::createGearMgr", "bytes of the second written file"])

p("P04", "XML round trip of silicon trackers (ladders, disks, planes)",
  "Writing a geometry containing vertex, intermediate, external or forward silicon trackers, or either kind of test-beam telescope, to XML and reading it back reproduces every shell, layer, ladder, petal, plane and sensor quantity, type, identifier and text in the same layer order and the same slot, equal to the written precision (1e-9 relative). User parameters of these trackers survive too, and writing the re-read geometry again gives an identical file.",
  ["inputs"], "all tracker geometries with any number of layers, either telescope type with or without a device under test, and any finite numbers",
  "The copy test runs on fixed example files and compares nothing; several quantities (sensor rotations, resolutions, layer identifiers) are in no example at all.",
  [X + "ZPlanarParametersXML.cc", X + "FTDParametersXML.cc", X + "SiPlanesParametersXML.cc", X + "TrackerPlanesParametersXML.cc", X + "GearXML.cc"],
  [("toXML/fromXML", X + "ZPlanarParametersXML.cc, FTDParametersXML.cc, SiPlanesParametersXML.cc, TrackerPlanesParametersXML.cc")],
  ["gear::GearXML::createXMLFile followed by gear::GearXML::createGearMgr"])

p("P05", "XML round trip of time projection chambers with any pad layout and modules",
  "Writing a TPC to XML and reading it back reproduces drift length and velocity, coordinate type, and for every module its ID, offset, angle, z position (or its absence), border, readout frequency and complete pad layout: the same rows, pads, centres, sizes and plane extents, equal to the written precision. This holds for every pad layout kind, for one plain pad plane and for many modules, and writing the re-read geometry again gives an identical file.",
  ["inputs"], "all TPCs with any number of modules, every pad layout kind with any rows and sizes, both coordinate types",
  "Only a few example layouts are copied through XML and the result is never compared; attribute names that differ between writer and reader go unnoticed.",
  [X + "TPCParametersXML.cc", X + "TPCModuleXML.cc", X + "PadRowLayout2DXML.cc", X + "FixedPadSizeDiskLayoutXML.cc", X + "FixedPadAngleDiskLayoutXML.cc", X + "RectangularPadRowLayoutXML.cc", X + "VersatileDiskRowLayoutXML.cc", I + "TPCParametersImpl.cc"],
  [("toXML/fromXML", X + "TPC*XML.cc and *LayoutXML.cc")],
  ["gear::GearXML::createXMLFile followed by gear::GearXML::createGearMgr", "gear::TPCModule and gear::PadRowLayout2D getters"])

p("P06", "Reading a geometry file yields exactly what the file says",
  "For any well-formed geometry file the manager holds exactly the described values in the described slots: numbers and texts given as attribute or as element text, repeated layers expanded, optional attributes defaulted as documented, modules with inherited defaults and running IDs, and trackers routed by name. The order of detectors and attributes, whitespace and comments do not matter. A detector whose type is missing is skipped, an unknown type or missing detector list is a parse error, and slots not mentioned stay unset.",
  ["inputs"], "all well-formed geometry files in the documented vocabulary, in every spelling, order and formatting",
  "The example files are loaded and printed, but no value read is compared with the file; optional and defaulted attributes appear in at most one form.",
  [X + "GearXML.cc", X + "XMLHandlerMgr.cc", X + "GearParametersXML.cc", X + "CalorimeterParametersXML.cc", X + "TPCParametersXML.cc", X + "TPCModuleXML.cc", X + "ZPlanarParametersXML.cc", X + "FTDParametersXML.cc", X + "SiPlanesParametersXML.cc", X + "TrackerPlanesParametersXML.cc"],
  [("fromXML of each subdetector", "src/gearxml/*ParametersXML.cc"), ("dispatch by type and name", X + "GearXML.cc")],
  ["gear::GearXML::createGearMgr on a generated file, then all getters"])

p("P07", "Malformed geometry files are refused with an error, never crash or half-load",
  "Reading any file, however damaged, either yields a usable geometry or raises a library exception; it never crashes, hangs, reads outside its buffers or raises anything else. A geometry file from which a required element or attribute was removed, or that is cut off anywhere before the end of its root element, is refused with a parse error; one naming a kind of detector, layout, technology or coordinates that does not exist is refused with a library exception; and after a failed read the same reader does not hand out a partial geometry.",
  ["inputs"], "all byte strings, in particular valid files with bytes, tokens, attributes or elements removed, duplicated, swapped or replaced",
  "The test suite contains no malformed file at all.",
  [X + "GearXML.cc", X + "XMLHandler.cc", X + "tinyxmlparser.cc", X + "tinyxml.cc", "include/gear/gearxml/XMLHandler.h"],
  [("attribute and element access", X + "XMLHandlerMgr.cc"), ("document parser", X + "tinyxmlparser.cc")],
  ["gear::GearXML::createGearMgr: result or exception type"])

p("P08", "XML document layer: printing and parsing are inverse and character exact",
  "Any document tree of elements, attributes, text, comments and declarations, saved to a file and loaded again, gives an equal tree with every name, attribute order, attribute value and text character preserved (text up to the documented whitespace condensing), and saving it again gives the same bytes (a value that spells a complete hexadecimal character reference such as &#x41; stands for that character). Queries, iteration and edits (insert, replace, remove, clone, attribute set and remove) on a tree behave as on an ordered list of children and attributes.",
  ["inputs", "histories"], "all document trees and all sequences of tree edits, with any characters including markup characters in values",
  "Tests only load and write fixed geometry files with plain ASCII names and numbers.",
  [X + "tinyxml.cc", X + "tinyxmlparser.cc", "include/gear/gearxml/tinyxml.h"],
  [("print and entity encoding", X + "tinyxml.cc"), ("parse and entity decoding", X + "tinyxmlparser.cc")],
  ["TiXmlDocument::SaveFile, LoadFile, Parse and node/attribute accessors"])

p("P09", "Merging two geometry files keeps everything; the dominant file decides conflicts",
  "Merging a dominant and a recessive geometry file gives a file that contains every detector, parameter and setting of the dominant file unchanged and, in addition, everything of the recessive file that the dominant one does not define, matched by element and name (an element without a name is one item together with its contents); nothing else appears. Repeated elements that both files have in different numbers are refused with an error and no file. Merging a file with itself changes nothing, merging again gives the same file, and the two inputs are not modified.",
  ["inputs"], "all pairs of well-formed geometry files with disjoint, overlapping or equal detectors and parameters",
  "mergeXML is run on three fixed pairs only (and crashes on them); the merged content is never looked at.",
  [X + "MergeXML.cc", "include/gear/gearxml/MergeXML.h"],
  [("mergeFiles and mergeNode", X + "MergeXML.cc")], ["gear::MergeXML: setFile1, setFile2, mergeFiles and the written file"])

p("P10", "Pad numbering: every pad has one index and neighbours are mutual",
  "In every pad layout the listed pads of all rows are pairwise distinct and exactly as many as the reported pad count; combining row and pad number gives that index and splitting an index gives row and pad number back, while combining refuses rows or pads that do not exist with an error. A query about an index that no pad has raises an error or answers without touching anything outside the layout; a neighbour it gives is a pad that exists. The left and right neighbour of a pad are the adjacent pads of the same row and inverse to each other; beyond the last pad an error is raised, except on full circles, where numbering closes.",
  ["inputs"], "every layout kind with arbitrary parameters, every pad, row and out-of-range number",
  "testgear walks the neighbours of one fixed disk layout; the other layouts and error cases are not examined.",
  [I + "FixedPadSizeDiskLayout.cc", I + "FixedPadAngleDiskLayout.cc", I + "RectangularPadRowLayout.cc", I + "VersatileDiskRowLayout.cc", I + "FixedDiskLayoutBase.cc", I + "GlobalPadIndex.cc"],
  [("index arithmetic and neighbours", "src/gearimpl/*Layout.cc")], ["gear::PadRowLayout2D: getPadIndex, getRowNumber, getPadNumber, getPadsInRow, getNPads, getLeft/RightNeighbour"])

p("P11", "Pad geometry: centres, sizes and extents agree with the layout parameters",
  "For every pad the centre lies where row heights, pad pitches and offsets put it, the pad's width and height are those given, rows stack without gap or overlap from the inner edge of the plane, and the plane extent bounds all rows. A point is reported inside a pad exactly when it lies in that pad's area around its centre (the pad itself for fixed-size and rectangular layouts, its pitch cell for angular and versatile ones), and inside the layout exactly when it is inside some pad.",
  ["inputs"], "every layout kind with arbitrary parameters, every pad and every point off the pad borders",
  "Only one nearest-pad lookup per pad centre of one layout is tested; sizes, extents and inside tests of all layouts are only printed or not called.",
  [I + "FixedPadSizeDiskLayout.cc", I + "FixedPadAngleDiskLayout.cc", I + "RectangularPadRowLayout.cc", I + "VersatileDiskRowLayout.cc", I + "FixedDiskLayoutBase.cc"],
  [("centre, size and extent formulas", "src/gearimpl/*Layout.cc")], ["gear::PadRowLayout2D geometry getters and isInsidePad"])

p("P12", "Nearest pad lookup finds the pad whose area contains or is closest to a point",
  "For every point inside some pad's area (its pitch cell) the lookup returns that pad. Elsewhere it returns an existing pad: on disk layouts one whose area is at minimal distance, on rectangular layouts the closest pad of the vertically closest row. Every pad is found from its own centre. A layout without any pad refuses the lookup with an error.",
  ["inputs"], "every layout kind with arbitrary parameters and every point of the plane, inside and outside",
  "testgear checks pad centres of one fixed layout only.",
  [I + "FixedPadSizeDiskLayout.cc", I + "FixedPadAngleDiskLayout.cc", I + "RectangularPadRowLayout.cc", I + "VersatileDiskRowLayout.cc"],
  [("getNearestPad", "src/gearimpl/*Layout.cc")], ["gear::PadRowLayout2D::getNearestPad"])

p("P13", "Distance to a pad or module: zero inside, true border distance outside",
  "The distance from a point to a pad is 0 exactly when the point is inside the pad's effective area (pitch by row height) and otherwise the Euclidean distance to the closest point of that area's border, for both cartesian and polar layouts; the distance to a module is likewise that to its border-enlarged active area. Distances of modules do not change under a common shift or rotation of module and point.",
  ["inputs"], "all layouts, modules, pads and points",
  "testDistanceToModule only prints or draws distances of example modules without comparing them to anything.",
  [I + "FixedPadSizeDiskLayout.cc", I + "FixedPadAngleDiskLayout.cc", I + "RectangularPadRowLayout.cc", I + "VersatileDiskRowLayout.cc", I + "TPCModuleImpl.cc"],
  [("getDistanceToPad and distance helpers", "src/gearimpl/*Layout.cc"), ("getDistanceToModule", I + "TPCModuleImpl.cc")], ["gear::PadRowLayout2D::getDistanceToPad", "gear::TPCModule::getDistanceToModule"])

p("P14", "TPC module placement: local and global coordinates are inverse rigid motions",
  "Transforming a point from module-local to global coordinates applies exactly the module's rotation, offset, end-cap mirroring and change between cartesian and polar coordinates, and transforming back returns the point. Every query on a module in global coordinates (pad centre, nearest pad, inside pad, inside module) gives the same answer as the local pad layout asked at the transformed point, and the global plane and module extents enclose all pads and the whole active area respectively.",
  ["inputs", "histories"], "all modules of every layout kind, any offset, angle, z sign, border and sequence of placement changes, both coordinate types, all points",
  "testTPCModule and the module test programs print a few transformed coordinates and never compare them.",
  [I + "TPCModuleImpl.cc", HI + "TPCModuleImpl.h", H + "TPCModule.h"],
  [("globalToLocal, localToGlobal, extent computation", I + "TPCModuleImpl.cc")], ["gear::TPCModule queries"],
  [("placement", "offset, angle, z position, border and cached extents", HI + "TPCModuleImpl.h")])

p("P15", "TPC-wide queries combine modules: nearest, inside, extent and end-cap choice",
  "TPC-wide queries agree with asking every module: a point is inside a module or pad exactly if some module (of the end cap selected by z, in the 3D form) says so, the nearest module is one of minimal distance there, and the nearest pad is the one of minimal distance among the modules' nearest pads. Module lookup by ID, module count and the plane extent (the union over modules) reflect exactly the modules added, and modules that are null, of the wrong coordinate type or of a duplicate ID are refused without changing the TPC; the single-plane convenience calls work exactly when there is one module (unrotated and unshifted for the pad layout). The global pad indices returned compare and sort as pairs of module and pad.",
  ["inputs", "histories"], "all sets of modules over one or two end caps, all points, any order of adding modules and setting the drift length",
  "testIsInsideModule and testPlaneExtent draw or print results of example files and check nothing.",
  [I + "TPCParametersImpl.cc", HI + "TPCParametersImpl.h", H + "TPCParameters.h"],
  [("module loops and end-cap selection", I + "TPCParametersImpl.cc")], ["gear::TPCParameters queries"],
  [("modules and cathode position", "owned modules, union extent, z of the cathode", HI + "TPCParametersImpl.h")])

p("P16", "Copies are equal and independent",
  "Copying, cloning or assigning a pad layout, TPC module, TPC, parameter set, magnetic field, calorimeter or tracker description gives an object that answers every query like the original, and later changes to or destruction of either leave the other unchanged. Self assignment changes nothing.",
  ["histories"], "all objects of these kinds, all orders of copying, modifying and destroying",
  "No test copies an object and compares it with the original.",
  [I + "TPCParametersImpl.cc", I + "TPCModuleImpl.cc", I + "RectangularPadRowLayout.cc", I + "VersatileDiskRowLayout.cc", I + "FixedPadSizeDiskLayout.cc", I + "FixedPadAngleDiskLayout.cc", HI + "GearParametersImpl.h"],
  [("clone, copy constructors, assignment", "src/gearimpl/*.cc")], ["all getters of original and copy"])

p("P17", "Ladder trackers: point containment and sensor IDs match the ladder boxes",
  "A point is reported inside a ladder (or sensitive) exactly when it lies in one of the boxes described by the layers: each at its distance along the ladder's normal at phi0 plus a multiple of the equal angular step, shifted along increasing phi by the offset, with given thickness, width, length and the gap around z=0. The sensor identification returned with a sensitive hit names that layer, ladder and side.",
  ["inputs"], "all ladder layouts with any phi0, offset, number of ladders, gap and shell, and all points off the box surfaces",
  "testVTXgear scans points of three fixed detectors and prints or asserts little; no oracle independent of the library exists.",
  [I + "ZPlanarParametersImpl.cc", I + "ZPlanarLayerLayout.cc", HI + "ZPlanarParametersImpl.h"],
  [("isPointInLadder and isPointInSensitive", I + "ZPlanarParametersImpl.cc"), ("inside phi tables", I + "ZPlanarLayerLayout.cc")], ["gear::ZPlanarParameters::isPointInLadder, isPointInSensitive and the sensor ID"])

p("P18", "Ladder trackers: nearest-ladder vectors and line intersections are exact",
  "The vector returned from a point to the nearest ladder (or sensitive area) leads onto a ladder, is zero for points inside one, and no ladder is closer. The intersection of a line with the ladders is the first point, going along the direction from the start, where a line that starts outside enters a ladder, and the origin exactly when the line hits none.",
  ["inputs"], "all overlap-free ladder layouts, all points and all lines in general position",
  "testVTXgear calls these for random points of fixed detectors and does not verify minimality or that hits at negative z exist.",
  [I + "ZPlanarParametersImpl.cc", HI + "ZPlanarParametersImpl.h"],
  [("distanceToNearest, intersection helpers", I + "ZPlanarParametersImpl.cc")], ["gear::ZPlanarParameters::distanceToNearestLadder/Sensitive, intersectionLadder/Sensitive"])

p("P19", "Forward disks: layers, petal angles and z positions follow the layout rules",
  "A forward tracker with N stored layers reports every quantity unchanged for layers 0 to N-1, petals equally spaced from phi0, and alternating z offsets by petal number with the given starting sign, mirrored in z for the layers on the negative side. Sensor z positions lie half the combined thickness in front of (towards the interaction point) or behind the support by sensor number (the second half of the numbers of a double sided petal, the larger half of an odd number, lies behind), sensor numbers outside the range are refused, and outer radius is inner radius plus width.",
  ["inputs"], "all disk layouts with any number of layers, petals and sensors, single or double sided, either side",
  "testFTD checks fixed values of one example whose file is not even readable by the current reader.",
  [I + "FTDLayerLayoutImpl.cc", I + "FTDParametersImpl.cc", HI + "FTDLayerLayoutImpl.h"],
  [("z position and angle formulas", I + "FTDLayerLayoutImpl.cc")], ["gear::FTDLayerLayout getters"])

p("P20", "Calorimeter layers stack without gaps and determine the outer extent",
  "Each added layer starts where the previous one ends unless it is placed at an explicit distance, its distance, thickness, absorber thickness and cell sizes are those given, and the extent always reflects all layers added so far: a barrel grows in radius from its inner radius and keeps its length, an endcap grows in z and keeps its radii. Layer indices outside the range are refused.",
  ["histories"], "all sequences of adding and positioning layers, interleaved with queries, for barrels and endcaps",
  "Example calorimeters are printed only; the extent after further layers are added is never examined.",
  [I + "LayerLayoutImpl.cc", I + "CalorimeterParametersImpl.cc"],
  [("layer accumulation and extent", I + "LayerLayoutImpl.cc, CalorimeterParametersImpl.cc")], ["gear::CalorimeterParameters::getExtent, gear::LayerLayout getters"])

p("P21", "Telescope planes hold every quantity of every layer as given",
  "A telescope description returns, for each layer and its sensitive part, exactly the identifiers, positions, rotations, sizes, thickness, radiation length, pixel counts, pitches and resolutions it was given, in order of addition, including after a quantity was updated; updating one quantity of one layer changes nothing else. Layers are found by position and by identifier, absent ones are reported as absent, and the device under test is independent of the layers.",
  ["histories"], "all telescopes of both kinds with any number of layers, and all sequences of additions and updates",
  "testSiPlanesgear prints one telescope; setters and lookups by identifier are never called.",
  [I + "SiPlanesLayerLayout.cc", I + "SiPlanesParametersImpl.cc", I + "TrackerPlanesLayerLayout.cc", I + "TrackerPlanesParametersImpl.cc", HI + "SiPlanesLayerLayoutImpl.h", HI + "TrackerPlanesLayerLayoutImpl.h"],
  [("layer vectors, getters and setters", "include/gear/gearimpl/SiPlanesLayerLayoutImpl.h, TrackerPlanesLayerLayoutImpl.h")], ["gear::SiPlanesLayerLayout and gear::TrackerPlanesLayerLayout getters"])

p("P22", "Vectors: coordinates and algebra are mathematically consistent",
  "A three-vector given in cartesian, cylindrical or spherical coordinates reports the same point in all three systems, and sums, differences, scaling, negation, dot and cross products, norms and unit vectors obey the vector-algebra laws. Element access and the printed text agree with the components and the derived quantities; out-of-range access of the fixed-size two and three component containers is refused.",
  ["inputs"], "all finite vectors and scalars",
  "No test exercises vector arithmetic or coordinate conversions directly.",
  [HI + "Vector3D.h", I + "Vector3D.cc", HI + "Vectors.h"],
  [("component formulas", HI + "Vector3D.h")], ["gear::Vector3D, gear::Vector2D"])

p("P23", "Measurement surfaces: bounds and local/global coordinates are consistent",
  "Mapping a point or direction between a surface's local and the global frame applies exactly its rotation and translation and is undone by the reverse mapping; a point is inside a surface exactly when its local coordinates lie within the (possibly rotated) rectangle or trapezoid bounds, a trapezoid having its bases along u and its height along v. The surface store, once filled, returns for each identifier exactly the surface that was stored, and refuses unknown or duplicate identifiers and a second filling.",
  ["inputs", "histories"], "all rotations, translations, rectangle and trapezoid sizes and angles, all points off the borders, all sets of surface identifiers",
  "No test of the suite touches measurement surfaces.",
  ["src/gearsurf/BoundaryRectangle.cc", "src/gearsurf/BoundaryTrapezoid.cc", "src/gearsurf/CartesianCoordinateSystem.cc", "src/gearsurf/MeasurementSurface.cc", "src/gearsurf/MeasurementSurfaceStore.cc"],
  [("bounds and frames", "src/gearsurf/*.cc"), ("store", "src/gearsurf/MeasurementSurfaceStore.cc")], ["gear::MeasurementSurface, gear::MeasurementSurfaceStore"])

p("P24", "Printing a geometry shows every value, changes nothing and never fails",
  "Printing any geometry, subdetector, layout or material succeeds for every content, leaves the printed object unchanged and gives the same text each time. The text contains the values of all parameters, layers, tracker rows and modules it announces (runs of calorimeter layers with equal thicknesses may be abbreviated to their first and the last layer), under their own names and in their order, to the printed precision.",
  ["inputs"], "all geometries, with any magnitudes of numbers and any lengths of texts",
  "printParameters is run on example files whose numbers are small and texts short, and its output is discarded.",
  [I + "Util.cc", HI + "Util.h", I + "SiPlanesLayerLayout.cc", I + "TrackerPlanesLayerLayout.cc"],
  [("operator<< of all interfaces", I + "Util.cc")], ["operator<< to a string stream"])

T = "src/geartgeo/"
p("P25", "Material maps: grid values exact, interpolation between grid points",
  "A material map built on a grid in cartesian, cylindrical or spherical coordinates returns at every grid point, including the last one of each axis, exactly the radiation and interaction length between the vertex and that point, and elsewhere inside the grid the inverse-distance weighted mean of the grid points of the cell (distances in map coordinates; an axis without steps or without range is a single plane at its lower end). Points outside the grid are refused with an error, as are inverted ranges, negative step numbers, coordinates outside their domain and unknown coordinate systems. The factory returns the same map for the same grid and coordinate system and a different one for any other.",
  ["inputs", "histories"], "all grids of the three coordinate systems, all points inside and outside, all sequences of factory calls",
  "No test of the suite builds a material map (the library part is off by default).",
  [T + "MaterialMap.cc", T + "MaterialMapFactory.cc", "include/gear/geartgeo/MaterialMap.h"],
  [("filling the grid", T + "MaterialMap.cc constructor"), ("interpolateOnGrid", T + "MaterialMap.cc"), ("map cache", T + "MaterialMapFactory.cc")],
  ["gear::MaterialMap::getRadiationLength, getInteractionLength", "gear::MaterialMapFactory::createMaterialMap"])

p("P26", "Material along a line and at a point equals what the detailed geometry contains",
  "Between any two points of a detailed (TGeo) geometry the listed materials, volumes and thicknesses are those of the consecutive volumes the straight line passes, and the numbers of radiation and interaction lengths are the sums of thickness over length over all pieces up to the end point (materials without such a length count zero), independent of earlier queries; nothing lies between a point and itself, and a start outside the geometry is refused every time. At a point the material, its constants, the position in the frame of the innermost volume and the lists of enclosing volumes are those of the volume containing it; points outside are refused. A geometry file naming a GDML file gives a manager answering from that geometry.",
  ["inputs", "histories"], "all volume trees, points and lines in general position, and all sequences of queries on one object",
  "Needs ROOT; the tests of this part are not built and only print.",
  [T + "TGeoGearDistanceProperties.cc", T + "TGeoGearPointProperties.cc", T + "TGeoMaterialProperties.cc", T + "TGeoGeometryInitializer.cc", X + "GearXML.cc"],
  [("beamOn and its cache", T + "TGeoGearDistanceProperties.cc"), ("point queries", T + "TGeoGearPointProperties.cc")],
  ["gear::TGeoGearDistanceProperties and gear::TGeoGearPointProperties queries"])

p("P27", "Element handlers: found by type, replaceable, one element at a time",
  "For each detector type name the list of handlers returns its own handler, or the one set last for that name (the replaced one is destroyed, setting none changes nothing), unknown names have none, and reading a file hands each detector in file order to the handler of its type, whose error ends the reading. A handler turns parameters into one element and such an element back into equal parameters, alone or as the object then held by the given manager. Parameters or pad layouts of another kind are refused, and the attribute helpers return the value, the given default or a parse error.",
  ["inputs", "histories"], "all parameter objects and elements, and every history of setting, replacing and looking up handlers between readings",
  "The programs only read whole files with the built-in handlers; no test sets a handler, uses one without a manager or gives it other parameters.",
  [X + "XMLHandlerMgr.cc", H + "gearxml/XMLHandlerMgr.h", H + "gearxml/XMLHandler.h", X + "GearXML.cc", X + "PadRowLayout2DXML.cc", X + "GearParametersXML.cc", X + "CalorimeterParametersXML.cc", X + "ConstantBFieldXML.cc", X + "SimpleMaterialXML.cc"],
  [("list of handlers", X + "XMLHandlerMgr.cc"), ("use in reading", X + "GearXML.cc createGearMgr"), ("toXML/fromXML", "src/gearxml/*XML.cc")],
  ["gear::XMLHandlerMgr, gear::XMLHandler and gear::PadRowLayout2DXML"])

p("P28", "Material and fields through the CGA interface are those of the simulation",
  "A line between two points given in mm is followed through the simulated detector from the first to the second point: names and thicknesses list the consecutive materials in parallel, the numbers of radiation and interaction lengths are the sums over all of them, and the integrated fields are those of the same two points, whatever was asked before. At a point the material, its constants, the local position, the fields, the volume lists, the region and its kind are those of the simulation at exactly that point; the cell ID holds both words of the simulation's cell unchanged (also in a guard ring), and points outside of the world or of sensitive volumes are refused. The simulation is started once, with the arguments of the first object, in their order.",
  ["inputs", "histories"], "all detectors, points and lines, and all sequences of objects and queries",
  "Needs Mokka: neither built nor tested by the suite.",
  ["src/gearcga/CGAGearDistanceProperties.cc", "src/gearcga/CGAGearPointProperties.cc", "src/gearcga/CGAGeometryInitializer.cc"],
  [("beamOn and the sums", "src/gearcga/CGAGearDistanceProperties.cc"), ("getCellID and point queries", "src/gearcga/CGAGearPointProperties.cc"), ("single start", "src/gearcga/CGAGeometryInitializer.cc")],
  ["gear::CGAGearDistanceProperties and gear::CGAGearPointProperties queries"])

p("P29", "Ladder layers: angular range, radius and path length fit their geometry",
  "For every layer of a ladder layout, and for its ladders as for its sensitive areas, the starting and ending angles of the first ladder are those of the corners of its inner and outer face (angles counted clockwise from the y axis, so 90 degrees minus the azimuth; the end not before the start), the maximum radius is the largest distance of the ladder from the z axis, and the thickness under an angle is the length of the path of a line from the z axis in that direction inside the ladder, whether it leaves through the outer face or through a side, and -1 if it does not enter through the inner face. Invalid layer indices are refused.",
  ["inputs"], "all ladder layers, any phi0, offset (also beyond the ladder), width and angle",
  "No test calls these functions.",
  ["src/gearimpl/ZPlanarLayerLayout.cc", "include/gear/gearimpl/ZPlanarLayerLayoutImpl.h"],
  [("angles, radius, thickness", "src/gearimpl/ZPlanarLayerLayout.cc")],
  ["gear::ZPlanarLayerLayoutImpl::getStartInnerPhi etc., getMaxRadius, getThicknessForPhi"])

for q in P:
    assert len(q["title"]) <= 80, q["id"]
    print(json.dumps(q))
