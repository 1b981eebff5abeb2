import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":w} for a,b,w in state],
        "mechanism":[{"name":a,"where":w} for a,w in mech],"observe_at":list(observe),"hook_needed":None}})

W="toughio/_io/input/tough/_write.py"; R="toughio/_io/input/tough/_read.py"; H="toughio/_io/input/tough/_helpers.py"
CM="toughio/_common.py"; IC="toughio/_io/input/tough/_common.py"

p("D01","Input deck round trip",
 "For every valid parameter dictionary, writing it as a TOUGH input file with toughio.write_input and reading that file back with toughio.read_input gives the same simulation: title, rocks in order, default rock values, flags (start, nover, isothermal), options, solver, selections, component counts, diffusion, times, histories, generators, output control, elements, connections and initial conditions all come back with the values given, numbers to the precision of their field and integers, strings, booleans and lists as such. Nothing set is lost and nothing unset appears, beyond the documented defaults. The same holds for the partial files (block 'mesh', 'incon', 'gener') and for label lengths 5 to 9.",
 ["inputs"],"every combination of present blocks, optional fields, list lengths (1..many records), label lengths 5-9, scalar/array shapes accepted by the API",
 "tests write one fixed random deck per block and compare a few keys; combinations of blocks, optional-field subsets, record-count boundaries (4/8 values per record, tables, more than 4 primary variables) are not sampled",
 [W,R,H,CM],[("write_buffer","%s: write_buffer"%W),("read_buffer","%s: read_buffer"%R),("read_record/write_record",H)],
 [("parameters","the deck as a dictionary","%s: _Parameters"%IC)],["toughio.write_input","toughio.read_input"])

p("D02","Written decks follow the fixed TOUGH record format",
 "Every input file that toughio.write_input produces for a valid parameter dictionary is the TOUGH fixed-column deck for that dictionary: blocks appear in a legal order under their five-letter keyword, each value lies in its documented columns of its documented record, record counts and counters (NAD, number of time steps and times, table lengths, IE(1), NEQ/NPH/NB, number of output variables) match what follows, list blocks end with a blank record and the deck ends with ENDCY. Records are 80 columns wide and a value never spills into the columns of its neighbour. A parameter that was not given leaves its columns blank.",
 ["inputs"],"every valid parameter dictionary, as for D01, judged on the text of the file and independently of the library's own reader",
 "tests only read back what was written with the same column table, so an error shared by reader and writer, a wrong counter or a wrong column is invisible to them",
 [W,H,CM,IC],[("block writers",W),("block_to_format",CM),("write_record",H)],(),["bytes of the written file"])

p("D03","Reading independently written decks",
 "For every well-formed TOUGH deck, whoever wrote it, toughio.read_input returns exactly the values that stand in the documented columns, whatever the order of the blocks, the presence of blank or missing optional records, the number notation (Fortran exponents without 'e', unpadded short lines, left or right justified), block terminators ('blank' or '+++'), or text after ENDCY. A block with a variable number of records never swallows or hides the block that follows it. Reading any file, complete or cut short, terminates.",
 ["inputs"],"all block orders and subsets, record look-ahead situations (PARAM, INDOM, INCON, DIFFU, OUTPU followed by anything), truncated files",
 "the tests only read decks that the library itself just wrote, always in the same block order and with the same padding",
 [R,H,CM],[("line iterator with look-ahead and rewind (PARAM, INDOM, INCON, DIFFU)",R),("str2float",H)],
 [("file position","lines consumed so far, rewound after a failed look-ahead",R)],["toughio.read_input"])

p("D04","What was read can be written, and read-write cycles are stable",
 "Whatever toughio.read_input returns for a valid deck is accepted by toughio.write_input, and reading that file again returns an equal dictionary. From then on each further write produces the same bytes.",
 ["inputs","histories"],"every deck in the domain of D01/D03 and read/write cycles of any length",
 "no test performs more than one write and one read",
 [W,R],[("write_buffer",W),("read_buffer",R)],(),["toughio.read_input","toughio.write_input"])

p("D05","JSON input files carry the same parameters",
 "toughio.write_input to JSON followed by toughio.read_input gives back the parameter dictionary (arrays as lists, integer keys of options and selections as integers, scalars of any NumPy type as numbers) without losing or changing a value, and a deck converted TOUGH->JSON->TOUGH is unchanged.",
 ["inputs"],"every valid parameter dictionary, with values of Python and NumPy types and any subset of keys",
 "the tests round-trip one fixed dictionary; subsets of keys (for example selections without integers) and NumPy scalar types are not tried",
 ["toughio/_io/input/json/_json.py"],[("read/write","toughio/_io/input/json/_json.py")],(),["toughio.read_input","toughio.write_input"])

p("D06","Writers do not touch their inputs and rejected writes destroy nothing",
 "toughio.write_input leaves the dictionary it is given, and everything in it, unchanged, and its result depends only on that dictionary: not on what was written or read before in the same process. A call that is rejected because of invalid input leaves an existing output file exactly as it was.",
 ["histories","inputs"],"every sequence of write_input/read_input calls, valid and invalid, in one process",
 "each test makes a single call on a fresh dictionary and never looks at the dictionary or at the previous file afterwards",
 [W,IC,"toughio/_io/input/json/_json.py"],[("deepcopy of defaults and parameters",W),("buffer built before the file is opened",W)],
 [("module defaults","default dictionaries shared by all calls",IC)],["argument after the call","output file after a rejected call"])

p("D07","Invalid parameters are rejected, unknown ones ignored",
 "toughio.write_input raises TypeError or ValueError, and writes nothing, when a known parameter has a value of the wrong type or inconsistent shape (wrong permeability count, tables of different lengths, too many selections, unknown EOS or block). Keys the library does not know never change what is written.",
 ["inputs"],"every parameter of every block, each with each kind of wrong value, alone or inside an otherwise valid deck",
 "the tests check one wrong type per decorator, not every key of every block nor that unknown keys have no effect",
 [H,W],[("check_parameters",H)],(),["exceptions of toughio.write_input","bytes of the written file"])

p("M01","Cell labels are unique, ordered and of the announced length",
 "A mesh of n cells has n pairwise distinct labels of one common length: the requested one, or by default 5 characters up to 3,185,000 cells and one more for each further factor of ten. Labels follow the TOUGH odometer (letter, two characters 1-9A-Z, digits) in cell order, so the label of a cell depends only on its index and the length.",
 ["inputs"],"every number of cells and every label length 5-9 within the capacity of the length",
 "tests look at the length of labels for a few sizes and never at uniqueness or order",
 ["toughio/_mesh/_common.py","toughio/_mesh/_mesh.py"],[("labeler","toughio/_mesh/_common.py: labeler")],(),["Mesh.labels"])

p("M02","Connections are exactly the shared faces",
 "In a 3D mesh of tetrahedra, pyramids, wedges and hexahedra, two cells are connected if and only if they share a face, the relation is symmetric, and it is recorded under the index of that face on both sides. Face lists, outward-or-inward unit normals, face areas and cell volumes are those of the geometry, face by face in the same order, whatever the order of cells, blocks, nodes or cell types.",
 ["inputs"],"every conforming mesh: all mixes and orders of cell types and blocks, isolated cells, permuted cells and points",
 "the tests compare sums over one fixed mesh",
 ["toughio/_mesh/_properties.py","toughio/_mesh/_mesh.py"],[("_connections, _faces, _face_areas, _face_normals, _volumes","toughio/_mesh/_properties.py")],(),["Mesh.connections, faces, face_normals, face_areas, volumes"])

p("M03","The MESH file describes the mesh",
 "Writing a mesh with write_tough yields one ELEME record per cell with its label, material (renamed by material_name), volume (times 1e50 for boundary cells), and centre, cells of material_end materials last, and COORD records in the same order; and one CONNE record per pair of connected cells, joining the labels of exactly those cells with the direction index, the two distances to the common face ('line' or 'orthogonal'; 1e-9 on boundary cells), the interface area and the gravity cosine from the first to the second cell. Labels, order and pairing agree between all blocks, for every label length.",
 ["inputs","configurations"],"all meshes as in M02 with all options (nodal_distance, material_name, material_end, coord, boundary cells, label_length)",
 "tests check block counts and some values on a single hybrid mesh; the content of CONNE (distances, direction, angle, pairing) and option combinations are unchecked",
 ["toughio/_mesh/tough/_tough.py","toughio/_mesh/tough/_helpers.py"],[("write, _write_eleme, _write_conne","toughio/_mesh/tough/_tough.py")],(),["MESH file"])

p("M04","INCON export matches the cell data",
 "The INCON file written for a mesh contains, in cell order, a record for every cell that has an initial condition, porosity or permeability modifier, with that cell's label, porosity, modifiers and primary variables (4 or more); unset values (-1e9) are blank, cells with nothing set are omitted, and no INCON is written when no initial condition is set. Inconsistent arrays are rejected and exporting the same mesh again gives the same file.",
 ["inputs"],"every mix of set/unset primary variables, porosity, isotropic or anisotropic modifiers, 1-8 variables, label lengths",
 "tests check one fully populated case",
 ["toughio/_mesh/tough/_tough.py","toughio/_mesh/tough/_helpers.py"],[("init_incon, check_incon, write_incon","toughio/_mesh/tough/_tough.py"),("_write_incon","toughio/_mesh/tough/_helpers.py")],(),["INCON file"])

p("M05","Meshes stay consistent under any sequence of edits",
 "After any sequence of edits (set_material, add_point_data, add_cell_data, extrude_to_3d, prune_duplicates, cell/point data transfer, conversions), every cell_data array has one entry per cell and every point_data array one per point, each surviving cell keeps its own data and geometry, and the material name of a cell is the one last assigned to it - assigning one material never renames cells of another. Non-inplace operations and conversions leave the original mesh untouched, and rejected edits change nothing.",
 ["histories"],"every finite sequence of edits on every mesh (several blocks, any cell types), including failing calls and materials registered but unused",
 "tests apply single operations to fresh meshes",
 ["toughio/_mesh/_mesh.py","toughio/_mesh/_common.py","toughio/_mesh/_properties.py"],[("Mesh methods","toughio/_mesh/_mesh.py"),("interpolate_data","toughio/_mesh/_common.py")],
 [("cell_data/point_data/field_data","arrays aligned with cells/points; material registry","toughio/_mesh/_mesh.py")],["Mesh attributes"])

p("M06","Generated grids tile their domain",
 "structured_grid, cylindric_grid and voxelize produce, for any increments and origin, exactly the product cells (nx*ny*nz, or nr*nz rings), in the documented order, each box with the given edge lengths at the given position, sharing faces with its grid neighbours and with no gap, overlap or duplicate point; layer order runs from top to bottom when requested. Cylindric cells have the volume, interface areas and nodal distances of rings; triangulate and extrusion keep area and volume.",
 ["inputs"],"every dimension, increment list, origin, material and layer flag",
 "tests check counts or a single grid",
 ["toughio/meshmaker/_structured_grid.py","toughio/meshmaker/_cylindric_grid.py","toughio/meshmaker/_voxelize.py","toughio/meshmaker/_triangulate.py"],
 [("structured_grid","toughio/meshmaker/_structured_grid.py"),("cylindric_grid","toughio/meshmaker/_cylindric_grid.py"),("voxelize","toughio/meshmaker/_voxelize.py")],(),["returned mesh"])

p("M07","Mesh files of every format give back the same mesh",
 "Writing a mesh to any supported format (avsucd, flac3d ascii and binary, pickle, tecplot, vtk/vtu and the other meshio formats) and reading it back yields the same points, the same cells (type, node order and geometry, in the same block order), the same cell and point data and the same materials with their names, as far as the format can carry them. The files hold what their format prescribes (node numbering of each cell type, right-handed zones and separately listed groups in FLAC3D, zone type and variable locations in Tecplot). Writing does not modify the mesh.",
 ["inputs","configurations"],"every mesh (cell-type mixes, several blocks of a type, several materials, names and data arrays of any sign and value) times every format and option",
 "tests round-trip the same few meshes with unsigned random data, one block per type and at most one material",
 ["toughio/_mesh/_helpers.py","toughio/_mesh/avsucd/_avsucd.py","toughio/_mesh/flac3d/_flac3d.py","toughio/_mesh/tecplot/_tecplot.py","toughio/_mesh/pickle/_pickle.py","toughio/_mesh/_mesh.py"],
 [("read/write","toughio/_mesh/_helpers.py"),("format modules","toughio/_mesh/*/")],(),["mesh read back"])

p("M08","Time series files keep every step",
 "toughio.write_time_series writes, for any mesh and any number of time steps, one entry per step with its time and exactly that step's point and cell data on the given mesh, so that reading the series back gives the steps in order with their data unchanged. Inconsistent lists are rejected before anything is written.",
 ["inputs"],"any number of steps and data keys, with or without point or cell data and explicit time steps",
 "a single test writes one series",
 ["toughio/_mesh/_helpers.py"],[("write_time_series","toughio/_mesh/_helpers.py")],(),["XDMF file"])

p("M09","Simulation results land on the right cells",
 "Mesh.read_output assigns to each cell the result carried by its own label, whatever the order of the labels in the output, for the requested time step; connection results become, at each cell, the sum of the flows leaving or entering it along the line joining the two cells. Outputs that do not match the mesh are rejected and leave it unchanged.",
 ["inputs"],"every permutation of labels, every time step index (positive or negative), element and connection outputs, scalar files and in-memory outputs",
 "the only tests need data files that are not available here; none permutes labels of connection data",
 ["toughio/_mesh/_mesh.py","toughio/_io/output/_common.py"],[("Mesh.read_output","toughio/_mesh/_mesh.py"),("reorder_labels","toughio/_io/output/_common.py")],(),["Mesh.cell_data"])

p("M10","Spatial queries return the cells they describe",
 "Mesh.near returns for each query point the index of the cell whose centre is closest, and Mesh.filter.box the indices of exactly the cells whose centres lie in the box, unbounded sides included. Cell quality is the smallest cosine between the lines to connected cells and the normals of the shared faces.",
 ["inputs"],"every mesh, point(s) and box",
 "tests query a single point or box",
 ["toughio/_mesh/_mesh.py","toughio/_mesh/_filter/box/_box.py","toughio/_mesh/_properties.py"],[("near","toughio/_mesh/_mesh.py"),("box","toughio/_mesh/_filter/box/_box.py")],(),["returned indices"])

p("M11","Mesh files of other programs are read as their formats say",
 "read_mesh on a Tecplot finite-element file, an AVS-UCD file or a FLAC3D grid (text or binary) that another program wrote returns the points, the cells with their nodes in the order of the mesh library, and the point and cell data of that file, each value on the point or cell it belongs to, however the file uses the freedom of its format: identifiers in any order and with gaps, records over several lines or several records on one, comments and blank lines, upper or lower case keywords, point or block packing, variables at nodes or at cells, groups and materials given in several records or holding only some cells. A file that is cut short or whose contents do not fit together is rejected, never read as a smaller or different mesh, and never read forever.",
 ["inputs"],"every valid file of the three formats within the stated grammar, and every truncation",
 "tests only read back files that the package itself has just written, in one layout",
 ["toughio/_mesh/tecplot/_tecplot.py","toughio/_mesh/avsucd/_avsucd.py","toughio/_mesh/flac3d/_flac3d.py"],
 [("read_buffer","toughio/_mesh/tecplot/_tecplot.py, toughio/_mesh/avsucd/_avsucd.py, toughio/_mesh/flac3d/_flac3d.py")],(),["toughio.read_mesh"])

p("M12","Meshes of meshio, gmsh and PyVista are taken over entirely",
 "from_meshio, from_pyvista and read_mesh on a gmsh file give a mesh with the same points, the same cells in the same order with their nodes in the order of the mesh library (VTK pixels and voxels as quads and hexahedra, polygons by their number of vertices), all point and cell data on their points and cells, the field data and the sets. The material of a cell is the physical group with its id and its dimension, whatever groups of other dimensions have the same id and whatever else the field data hold; without groups all cells have the given default material, whose id means nothing else. Changing the material of cells or extruding the mesh afterwards leaves the materials of all other cells as they were. to_meshio and to_pyvista give all of it back, cells_dict the cells by type; nothing that is converted is modified, and what cannot be taken over is rejected.",
 ["inputs","histories"],"every mesh object of the two libraries with supported cell types, every assignment of groups to ids and dimensions, every sequence of edits",
 "tests convert meshes that the package made itself, with a single material",
 ["toughio/_mesh/_mesh.py","toughio/_mesh/_properties.py","toughio/_mesh/_common.py","toughio/_mesh/_helpers.py"],
 [("from_meshio, from_pyvista, to_meshio, to_pyvista, set_material, extrude_to_3d","toughio/_mesh/_mesh.py"),("_materials","toughio/_mesh/_properties.py")],(),["toughio.from_meshio, toughio.from_pyvista, Mesh.materials"])

p("M13","The views of a mesh follow its content",
 "At any moment of the life of a mesh - built from arrays or lists, from a list or a dictionary of cells, with or without data, changed by assignment or in place, copied - its derived views describe its present content: n_points and n_cells, the centers (mean of the nodes of a cell), the materials, one label per cell, split (one slice per block, in order), cells_dict (the cells of each type, types in order of appearance) and the text that is displayed. Two meshes never share content unless they were given the same arrays: what is done to one does not appear in the other. add_point_data, add_cell_data and split refuse data of a wrong length or type and change nothing.",
 ["histories"],"every finite sequence of constructions, assignments, in-place changes, copies and refused calls on two meshes",
 "tests look at each view once, on a fresh mesh",
 ["toughio/_mesh/_mesh.py","toughio/_mesh/_properties.py","toughio/_mesh/_common.py"],
 [("Mesh","toughio/_mesh/_mesh.py"),("_materials","toughio/_mesh/_properties.py"),("get_old_meshio_cells","toughio/_mesh/_common.py")],(),["toughio.Mesh attributes"])

p("O01","Output tables survive every output format",
 "toughio.write_output followed by toughio.read_output gives, for csv, petrasim and tecplot, the same sequence of time steps with the same times, the same cells in the same order (by label where the format has labels) and the same value for each variable of each cell to the written precision. Reading with labels_order returns the same values attached to the same labels, in the requested order.",
 ["inputs"],"any number of steps, cells, variables, names with units, values of any sign and magnitude, label permutations",
 "tests write one small table per format and compare sums",
 ["toughio/_io/output/_helpers.py","toughio/_io/output/_common.py","toughio/_io/output/csv/_csv.py","toughio/_io/output/petrasim/_petrasim.py","toughio/_io/output/tecplot/_tecplot.py"],
 [("format modules","toughio/_io/output/*/"),("reorder_labels","toughio/_io/output/_common.py")],(),["toughio.read_output"])

p("O02","Listings and SAVE files are read value by value",
 "toughio.read_output on a TOUGH main listing returns one output per printed time step with its time, and for each element (or connection) of the tables the label and every column value under its heading, no matter how many pages, header repeats, extra blank lines or touching columns the listing has, how long the labels are, and whether element or connection tables are requested. On a SAVE/INCON file it returns the label, primary variables, porosity and user values of each element, in the requested order; toughio.read_history returns every column of a history file under its name. File types are recognised from content.",
 ["inputs"],"all table shapes (steps, rows, pages, multi-record variables), column layouts, and file types",
 "the listings used by the tests are not available in this checkout, and only sums of columns were compared",
 ["toughio/_io/output/tough/_tough.py","toughio/_io/output/save/_save.py","toughio/_io/output/_helpers.py"],
 [("_read_table","toughio/_io/output/tough/_tough.py"),("get_output_type","toughio/_io/output/_helpers.py"),("save.read","toughio/_io/output/save/_save.py")],(),["toughio.read_output"])

p("C01","File-editing commands lose nothing",
 "toughio-merge writes the lines of the deck up to its first ENDFI/ENDCY, then those of the MESH file and, when there is one, of the INCON file of its directory, then the rest of the deck: no line is lost, joined or reordered, and the merged deck says what its parts say. toughio-save2incon copies a SAVE file as INCON; with --reset everything from the +++ line on is replaced by a blank line, and nothing else changes. toughio-co2tab copies the CO2TAB file of the package. An invalid input (missing or wrong blocks, missing files) is rejected and leaves every existing file untouched, also when input and output are the same file; no other file is written.",
 ["inputs","fault_sequences"],"all combinations of present files and blocks, terminators, missing trailing newline, output equal to input, invalid inputs",
 "tests run the commands on one good input each; failing and overwriting runs are not tried",
 ["toughio/_cli/_merge.py","toughio/_cli/_save2incon.py","toughio/_cli/_co2tab.py"],[("merge","toughio/_cli/_merge.py"),("save2incon","toughio/_cli/_save2incon.py")],(),["output files"])

p("C02","Extract and export keep each value on its cell and time",
 "toughio-extract writes, for every time step of a TOUGH listing, a row per element or connection with the coordinates of that very element (for a connection, the middle of its two elements) from the MESH file and all its values, in the requested format, in one file or in one numbered file per step. toughio-export writes the requested time step (the last one by default; XDMF: all of them with their times) in the requested format, so that each cell of the given mesh carries the values of the element of its name; without mesh, the elements of a structured grid become voxels around their coordinates (ordered by layers or not), other elements the points of a triangulation, each with its own values. Missing or inconsistent inputs and options are rejected before any file is written, and inputs are not changed.",
 ["inputs","configurations"],"every output, mesh order, number of steps, and option combination",
 "tests depend on data files missing here and only compare sums, which are blind to permutations",
 ["toughio/_cli/_extract.py","toughio/_cli/_export.py"],[("extract","toughio/_cli/_extract.py"),("export","toughio/_cli/_export.py")],(),["written files"])

p("R01","File formats resolve deterministically",
 "The reader or writer used for a file is the one given by file_format, else the one registered for its extension (case-insensitively), else the documented default (TOUGH for inputs, meshio for meshes) or, for outputs that are read, the one its content announces; unknown formats are rejected, and file names and objects of wrong types are rejected with TypeError or ValueError, before any file is touched. Registering a format affects only its own name, extensions and material key, the latest registration winning; a registered handler receives the file name, the object and the keyword arguments of the call, and its result is returned.",
 ["inputs","histories"],"every sequence of registrations and every file name/format combination for the input, output and mesh registries",
 "tests call read/write with well-known names only",
 [CM,"toughio/_io/input/_helpers.py","toughio/_io/output/_helpers.py","toughio/_mesh/_helpers.py"],[("register_format, filetype_from_filename",CM)],
 [("_extension_to_filetype, _reader_map, _writer_map","registries","helpers modules")],["reader/writer called"])

p("K01","Relative permeability and capillary curves match TOUGH",
 "Each relative permeability and capillary pressure function evaluates the TOUGH formula of its number for scalar and array saturations alike, in every regime of its parameters (below residual, between, above the limits), liquid and gas relative permeabilities lie in [0,1] where the formula says so, and evaluating an array equals evaluating its elements. Invalid parameters are rejected at construction and saturations outside [0,1] at evaluation; setting parameters changes the curve to them; its description names its TOUGH number and parameters; and a plot draws exactly its values.",
 ["inputs"],"every function, parameter regime, saturation in [0,1], scalar or array",
 "the reference values of the tests are in data files missing here, so no value is checked at present",
 ["toughio/capillarity/","toughio/relative_permeability/"],[("_eval of each class","toughio/relative_permeability/*.py, toughio/capillarity/*.py")],(),["calling the curve object"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
