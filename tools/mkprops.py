import json
P = []
SP = 'freesif/sequentialparser/'
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(obs), hook_needed=None)))

PA = SP + 'parsers.py'; SF = SP + 'sequentialfiles.py'; CV = SP + 'sif2hdf5.py'
FI = 'freesif/data/file.py'; ST = 'freesif/data/strucdata.py'; HY = 'freesif/data/hydrodata.py'; SD = 'freesif/data/sifdata.py'
VW = 'freesif/utils/writers.py'

p('C01', 'Conversion stores every model record exactly once, field by field',
  'After converting a model (input) interface file, the database holds, for every supported record type, exactly one row per record of the file, in file order, and every named field of the row equals the value in the file (single precision for real fields, integers for integer fields). Optional trailing fields that are absent in the file are stored as zero, whatever record follows. Nothing is added, dropped, merged or shifted.',
  ['inputs'], 'Every sequence of supported model records (coordinates, nodes, element references, materials, thicknesses, beam sections, eccentricities, loads, boundary conditions), every field value representable in the file, with and without the optional fields, any number of records (including more than the internal block size).',
  'The tests convert a handful of sample files and compare a few derived arrays; most record types (beam sections, loads, reference vectors) are never looked at and optional fields, block boundaries and odd neighbours never occur.',
  [PA, SF], [('per-record-type readers', PA + ':standard_record_reader, reader_optionalfields'), ('row buffer', PA + ':recdata'), ('descriptors', PA + ':*_rec classes')],
  [('table rows', 'one row per record', 'HDF5 table <group>/<record>')], ['HDF5 contents after sif2hdf5'])

p('C02', 'Variable-length parts and texts stay attached to their own record',
  'For every record that carries a variable number of values or text lines (element connectivity, per-node references, set members, dependencies, concept parts, hierarchy children, dates, texts, names) the values stored for that record are exactly the ones in the file, in order, and a record without such values has none. No record ever shows values that belong to another record.',
  ['inputs'], 'Every sequence of such records with every combination of lengths, including zero and lengths spanning several lines or blocks.',
  'The tests only see the lengths that occur in the sample files, and only through connectivity and sets.',
  [PA], [('start/stop bookkeeping', PA + ':vldata'), ('readers of variable data', PA + ':gelmnt1_reader, gelref1_reader, gsetmemb_reader, bldep_reader, beuslo_reader, sconcept_reader, td_reader, text_reader')],
  [('start/stop columns', 'slice of the array that belongs to the row', 'HDF5 tables')], ['HDF5 contents after sif2hdf5'])

p('C03', 'Structural result records are stored completely, real and complex',
  'After converting a structural result file, every result reference, component definition, result point definition, combination and result value record is stored once, in order, with all its values. Element results have as many values as the point and component definitions of that element imply and complex cases carry both the real and imaginary part of every value.',
  ['inputs'], 'Every consistent combination of element types, result point definitions, component definitions, result cases (real and complex) and result records.',
  'The tests look at displacements and element results of real load cases of one model; complex cases, other components and point layouts are not checked.',
  [PA], [('dependent readers', PA + ':compdef_reader, rdpoints_reader, rdielcor_reader, rdresref_reader, rxxxxcmb_reader, rvnodres_reader, rvelmres_reader'), ('definitions needed by later records', PA + ':rdpoints_data, nsp_data, rdresref_data, lenrec_data')],
  (), ['HDF5 contents after sif2hdf5'])

p('C04', 'Hydrodynamic result records are stored completely',
  'After converting a hydrodynamic result file, every body, condition, reference, section, point, matrix, force, motion, drift, fluid kinematics, surface and panel pressure record is stored once, in order, with all fields and with real and imaginary parts combined correctly; a result that is real on the file has a zero imaginary part.',
  ['inputs'], 'Every sequence of hydrodynamic records with complex and real payloads, any number of directions, frequencies, time steps, sections, points, panels and bodies.',
  'One sample file is tested through the query functions only; sections, points, surfaces, panels, real-valued payloads and multiple bodies do not occur in it.',
  [PA], [('hydrodynamic readers', PA + ':wbodcon_reader .. W1PANPRE_reader')], (), ['HDF5 contents after sif2hdf5'])

p('C05', 'How a file is encoded does not influence what is stored',
  'The same records written as a formatted or as an unformatted file, with LF or CRLF line ends, with short or filled last lines and with continuation data split in blocks of any size up to 128 bytes, give the same database content.',
  ['inputs', 'configurations'], 'Every record sequence and every legal physical encoding of it.',
  'The sample files exist in one encoding each, so the two readers are never compared on equal data and block boundaries fall wherever the sample has them.',
  [SF], [('formatted reader', SF + ':FormattedFile'), ('unformatted reader and left-over values', SF + ':UnformattedFile.read_floats'), ('encoding detection', CV + ':sif2hdf5')],
  [('left-over values', 'values read but not yet consumed', SF + ':floatrest, hasrest')], ['HDF5 contents after sif2hdf5'])

p('C06', 'Records that are not stored never disturb the ones that are',
  'Unsupported record types, index records with a negative first value and, when a list of wanted record names is given, all other record types are skipped without any effect on the records that are stored: the stored content is exactly the content of the wanted supported records of the file, and the conversion does not fail.',
  ['inputs'], 'Every interleaving of stored and skipped records, every kind of skipped record (one-line, multi-line, long result record, text and name record, index record with and without payload) and every list of wanted names.',
  'No test uses the list of wanted names, and the unsupported records in the samples occur in a few positions only.',
  [PA, SF], [('skipping', SF + ':SequentialFile.skip_restofrecord'), ('dispatch', PA + ':general_parser, parse_file'), ('header recognition', SF + ':at_headerrec')], (), ['HDF5 contents after sif2hdf5'])

p('C07', 'A conversion does not depend on what was converted before',
  'The result of a conversion is a function of its own input files and arguments only: any earlier conversions in the same process, successful or failed, to other files or into memory, leave no trace in it. A failing conversion raises an exception, and afterwards no file stays open and the same target can be converted to again.',
  ['histories', 'fault_sequences'], 'Every sequence of conversions of valid and invalid files in one process, including failures at any record of any file of a hierarchy.',
  'Each test converts into a fresh directory and no test converts after a failure or checks what an earlier conversion leaves behind.',
  [PA, CV], [('reset of module state', PA + ':reset'), ('clean-up on failure', CV + ':sif2hdf5')],
  [('module globals', 'state of the conversion in progress', PA)], ['HDF5 contents, exceptions and open file descriptors over a history of conversions'])

p('C08', 'Datasets in one database are kept apart and named predictably',
  'Without the append option a conversion replaces the database; with it, or with a sequence of input files, the new data is added under its own name and every existing dataset stays exactly as it was, also if the conversion is refused or fails. The dataset name is made of the optional prefix, the file name prefix unless disabled, the file type letter and the superelement number, and the returned path is that of the database.',
  ['histories', 'configurations'], 'Every sequence of converting, appending and overwriting with every combination of naming options and colliding names.',
  'Tests only write single files with one option combination.',
  [CV, PA], [('naming', PA + ':get_path'), ('append handling', CV + ':sif2hdf5')],
  [('groups of the database', 'one per dataset', 'HDF5 root')], ['HDF5 group tree and contents'])

p('C09', 'A superelement hierarchy is assembled from exactly the right files',
  'Converting the top level file of a hierarchy reads one result file per first level superelement repetition, or one model file per superelement type, taken from the directory of the top level file with the same prefix and extension, and stores each under the top level dataset with its superelement number, repetition number, level and type recorded. A missing lower level file is reported and does not affect the others; unrelated files are ignored.',
  ['inputs', 'configurations'], 'Every hierarchy (depth, branching, repeated superelements), formatted and unformatted, with any subset of lower level files present.',
  'One assembly sample is used, complete and with one fixed shape.',
  [CV, PA], [('candidate file names', CV + ':_convert'), ('group path and attributes', PA + ':get_path, parse_file, set_current_ihref')],
  [('current hierarchy record', 'superelement being read', PA + ':current_hrec, current_indsel')], ['HDF5 group tree, attributes, standard output'])

p('C10', 'Opening an interface file directly equals converting and opening it',
  'Opening an interface file directly gives a dataset that answers every query exactly as the dataset obtained by converting the file to a database on disk and opening that. It does not create, change or remove any file on disk, and closing it releases everything.',
  ['inputs'], 'Every structural or hydrodynamic file (any prefix, number, encoding, letter case) and every query on it.',
  'The tests open one hydrodynamic file this way and look at a few values.',
  [FI, CV], [('in-memory conversion', CV + ':sif2hdf5(in_memory)'), ('open_sif', FI + ':open_sif')], (), ['public queries, directory listing'])

p('C11', 'An open database presents exactly its datasets until it is closed',
  'An open database lists every stored dataset under its name with the right kind (top, intermediate, first level, hydrodynamic) through item access, membership, keys, values, items, iteration and its textual forms. After it or any dataset of it is closed, every operation on the database and all its datasets is refused with the closed-file error, closing again is harmless, other open databases are unaffected, and closing all closes every open one.',
  ['histories'], 'Every sequence of open, access, query, close (of a database or of one of its datasets) and close-all over several databases.',
  'The tests check one closed file and one closed dataset with single calls.',
  [FI, SD], [('open/closed flag', FI + ':File._check_isopen, close; ' + SD + ':SifData._check_isopen, close'), ('registry of open files', FI + ':_open_files')],
  [('open files', 'set of databases not yet closed', FI + ':_open_files')], ['exceptions and results of every public operation'])

p('C12', 'Selecting elements by set and kind gives exactly those elements',
  'Restricting a query to sets selects the union of the members of the named sets, restricting to beams or shells selects the elements of those types, and both together the intersection, always in ascending element order and each element once. Element numbers, connectivity, offsets and types returned for the same selection describe the same elements in the same order.',
  ['inputs'], 'Every model (element types, order, numbering, overlapping sets, sets split over several records, sets holding nodes as well as elements) and every selection.',
  'The tests use the sets of the samples one or two at a time; overlapping and split sets and combined selections are not covered.',
  [ST], [('set members', ST + ':_get_setmember_indices'), ('kinds', ST + ':_get_elementkind_indices, _get_elementindices')], (), ['get_elements, get_elementnumbers'])

p('C13', 'Connectivity always refers to the right rows of the node array',
  'For any selection and either connection mode, looking up the connectivity in the node coordinates (or node numbers) obtained with the same arguments gives, for each selected element, the coordinates (numbers) of its own nodes in its own node order. Connected queries return each used node once in ascending order (all nodes when nothing is selected), disconnected queries one row per element node.',
  ['inputs'], 'Every model, including nodes outside all elements and external numbers unrelated to internal ones, and every combination of sets, kind and connection mode.',
  'The tests compare arrays with stored ones for a few argument combinations on models without unused nodes.',
  [ST], [('index compression', ST + ':_update_connectivity, _get_nodeindices'), ('coordinates', ST + ':get_nodes, get_nodenumbers')], (), ['get_nodes, get_nodenumbers, get_elements'])

p('C14', 'Node results line up with the nodes of the same query',
  'Displacement, velocity and acceleration results returned for any selection, connection mode and result cases hold, at each node position of the corresponding node query, exactly the six values stored for that node and result case, complex-valued for complex cases. Several result cases give a leading axis in the order of the result cases on the file; a single one gives none.',
  ['inputs'], 'Every model and result set, real or complex, and every combination of run, result cases, sets, kind and connection mode.',
  'The tests compare one load case per sample with stored arrays; complex cases, several cases with selections and unused nodes are not covered.',
  [ST], [('lookup and reshape', ST + ':get_noderesults')], (), ['get_noderesults'])

p('C15', 'Element results of beams and thin shells are those at the element nodes',
  'For two-node beams and three- and four-node thin shells, the element results returned for any set selection and result cases hold, element by element in the order of the element query and node by node in the order of the element nodes, the stored values of the result point located at that node (lower then upper surface for shells). Decomposed stresses are the mean (membrane) and half difference upper minus lower (bending) of the surface stresses.',
  ['inputs'], 'Every mixture of such elements, every result value, real and complex, any number of result cases and any set selection.',
  'The tests compare stored arrays for the samples; mixtures with selections, complex values and several cases are not covered.',
  [ST], [('per-type reduction', ST + ':_process_eltyp15, _process_eltyp24, _process_eltyp25, _decompose_stresses_thin')], (), ['get_elementresults'])

p('C16', 'Second-order element results are extrapolated exactly to surfaces and nodes',
  'For three-node beams and six- and eight-node shells, result values that vary linearly along the beam, linearly over the triangle, bilinearly over the quadrilateral and linearly through the thickness are reproduced exactly at the element nodes and at the lower and upper surface. General stresses have zero transverse shear at the surfaces; decomposed stresses hold the membrane and bending parts of the surface stresses and one and a half times the mean transverse shears; values at the result points are returned unchanged on request.',
  ['inputs'], 'Every set of result point values (any element of the linear space), real and complex, mixtures of types, any selection and result cases.',
  'Only the sample values are compared with stored output of the same code.',
  [ST], [('extrapolation matrices', ST + ':xquad, xtri, xbm3, _extrapolate_to_surface, _decompose_stresses_thick')], (), ['get_elementresults'])

p('C17', 'Exactly the requested result cases are returned',
  'A result query returns data for precisely the result cases of the requested run whose external numbers were requested (all of the run if none were), in file order, independent of the order and container type of the request; data of other runs or cases never leaks in. Mixing real and complex cases in one query is refused.',
  ['inputs'], 'Every table of result references (runs, external numbers repeated between runs, real and complex) and every request as number, list, tuple, array or none.',
  'The tests use one run with single requests.',
  [ST], [('case lookup', ST + ':_get_resrefs, _check_complex_and_get_flag')], (), ['get_noderesults, get_elementresults'])

p('C18', 'Hierarchy transformations compose along the path to the requested level',
  'Node coordinates requested at a hierarchy level equal the local coordinates mapped by the product of the transformations of the superelement repetition and its ancestors up to that level; level one is the identity, the top level may be given by name, and a given matrix is applied as is. Levels that do not exist or at which the repetition has no ancestor are refused, as is a request on data without hierarchy.',
  ['inputs'], 'Every hierarchy shape including skipped levels and repeated superelements, every transformation, repetition and level, for model and result data.',
  'Transformations through hierarchies are not tested at all.',
  [ST], [('composition', ST + ':TopLevelData.get_transformation'), ('application', ST + ':FirstLevelData.get_nodes')],
  [('HIERARCH/HSUPTRAN tables', 'tree of superelements and their transformations', 'HDF5 top level group')], ['get_nodes(trans, index), get_transformation'])

p('C19', 'Hydrodynamic response arrays are indexed as documented',
  'Motions, excitation forces, section forces, fluid kinematics, drift forces and panel pressures are returned so that each entry is the value on the file for that body, component (or section, point, panel, symmetry part), wave direction and frequency, where the direction and frequency axes follow the direction and frequency lists in order of first appearance. Elevation equals pressure divided by density and gravity.',
  ['inputs'], 'Every number of bodies, directions, frequencies, sections, points, panels and symmetry parts, including one, repeated or unsorted directions and frequencies, and all result values.',
  'One sample (one body, five directions) with the result types it happens to contain.',
  [HY], [('reshape and axis order', HY + ':get_motion_raos, get_excitationforce_raos, get_sectionforce_raos, get_fluidkinematics_raos, get_meandrift, get_horiz_meandrift, get_panel_pressures'), ('axes', HY + ':HydroData.__init__')], (), ['HydroData query results'])

p('C20', 'Hydrodynamic system data are returned for the right body and in the right unit',
  'Matrices are returned for the requested kind and pair of bodies, frequency-dependent ones stacked along a last axis in frequency order; body properties, sections, points and panel identifications are those on the file. Directions are available in radians and degrees, periods are two pi over the angular frequencies, time-domain files give time steps, and requests for the other domain or for data that is not on the file are refused.',
  ['inputs'], 'Every set of bodies, matrices, sections, points, panels, directions, frequencies or time steps.',
  'The sample has one body and frequency-domain data only.',
  [HY], [('matrix lookup', HY + ':get_matrix, _get_ibcond'), ('definitions', HY + ':get_bodyproperties, get_sections, get_points, get_pressure_panel_ids'), ('domain check', HY + ':_assert_domaintype')], (), ['HydroData query results and exceptions'])

p('C21', 'Section properties, thicknesses and names belong to the right item',
  'Beam section properties and shell thicknesses are returned one per selected beam or shell element, in the order of the element query, as stored for the geometry number that element refers to. Result case names are returned for the requested external numbers, set names are listed in file order, and a dataset without sets reports none.',
  ['inputs'], 'Every assignment of geometry numbers (shared, unordered, unused), result case and set names, and every selection.',
  'Tests compare the sample arrays; shared or unordered geometry numbers with selections are not exercised.',
  [ST], [('geometry lookup', ST + ':get_section_properties, get_shell_thicknesses'), ('names', ST + ':get_resultcase_names, get_setnames')], (), ['query results'])

p('C22', 'Queries have no side effects and results are independent of each other',
  'Repeating a query at any later point, after any other queries, failed queries, changes made by the caller to previously returned arrays, or closing and reopening the database, gives the same answer, and the database file is not modified by querying. Arguments passed to queries are not modified.',
  ['histories'], 'Every sequence of queries and caller modifications of returned values on structural and hydrodynamic datasets.',
  'The tests call each query once on a fresh database.',
  [SD, ST, HY], [('copies', HY + ':get_directions, get_periods, get_angular_freqs; ' + ST + ':FirstLevelData')], (), ['repeated query results, bytes of the database'])

p('C23', 'VTU files hold exactly the data added, in VTK order, and writing is safe',
  'A written file is well-formed and holds, per piece, the points, cells and data arrays that were added, with their names, components and types, element nodes arranged in the order VTK prescribes, and element node data arranged to match the points of disconnected elements. Data may only be added inside an opened piece and data section, wrong order is refused without damaging the file, and arrays given by the caller are never changed, so the same arrays may be written repeatedly.',
  ['histories', 'inputs'], 'Every sequence of writer calls, every mixture of element types, array type and shape and every name.',
  'The tests write two sequences of the sample data and compare files byte by byte.',
  [VW], [('writer state', VW + ':VtuWriter._open_data, _close_data, _close_piece'), ('reordering', VW + ':_reorder_data')],
  [('open piece / data section', 'what may be written next', VW + ':_piece_open, _pointdata_open, _celldata_open')], ['the written file, exceptions, input arrays'])

p('C24', 'Derived stress quantities satisfy their defining equations',
  'Principal stresses are the ordered eigenvalues of the plane stress tensor (for thick shells the largest and smallest of the two that are largest in magnitude of the three), von Mises stress is the plane stress equivalent, and the signed extreme is the entry of largest magnitude along the axis with its sign. All work on arrays of any leading shape, do not change their input, and agree along every leading index with the result for a single item.',
  ['inputs'], 'Every stress state and array shape.',
  'No test covers these functions.',
  ['freesif/calc/principal.py', 'freesif/calc/vonmises.py', 'freesif/calc/general.py'], [('formulae', 'freesif/calc/*.py')], (), ['function results'])

p('C25', 'Element and node number pairs address the right element node results',
  'For every pair of an element number and the number of one of its nodes, the returned index is the position of that node of that element on the element node axis of disconnected nodes and element node results, for all pairs in the order given. The arguments are not changed.',
  ['inputs'], 'Every model (shared nodes, any numbering) and every list of pairs.',
  'No test covers this function.',
  ['freesif/calc/general.py'], [('search', 'freesif/calc/general.py:find_elemres_indices')], (), ['function results'])

p('C26', 'Exported results sit on the points and cells they belong to',
  'A VTU file written from the nodes, elements, numbers, thicknesses and node or element results of one selection, as the queries returned them, shows for every cell the element of the model, with its nodes at their places in the order VTK prescribes, and on every point and cell the value the interface file gives for that node, element node or element: also for several selections as several pieces, shared or disconnected nodes, second order elements and mixtures of element types.',
  ['inputs', 'histories'], 'Every model, element mixture, selection and list of results exported.',
  'The tests compare two exports of the sample models with stored files; each query and the writer are only tested apart otherwise.',
  [SD, ST, VW], [('agreement of node order', SD + ':get_nodes, get_elements, get_elementresults; ' + VW + ':sesam2vtk_connectivity, sesam2vtk_elemresults')], (), ['the written file'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
