"""Regenerates properties.jsonl (kept as code so the texts stay reviewable)."""
import json, os
P = []
DEC = 'src/gempakio/decode/gempak.py'; ENC = 'src/gempakio/encode/gempak.py'
VD = 'src/gempakio/decode/vgf.py'; VE = 'src/gempakio/encode/vgf.py'; TL = 'src/gempakio/tools.py'
GC = 'src/gempakio/gemcalc.py'; CM = 'src/gempakio/common.py'
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Grid file: the next good write reads back exactly the accepted grids',
  'After any history of adding, replacing and rejecting grids on one grid file object, interleaved with successful and failed writes, the next successful write yields a file that reads back exactly the grids accepted so far: each one once, under the parameter, level(s), vertical coordinate, grid type and time(s) it was last added with, on the same grid coordinates. '
  'Each valid cell comes back within range/(2^bits-2) of the value last added (range taken over the valid cells of that grid, plus 32-bit rounding); missing (NaN or masked) cells, and only those, come back missing (-9999 stands for missing: a value no further from it than that bound may come back missing). '
  'A rejected addition or failed write changes nothing, and grids may be added in any order and mixture (with or without second level, second time or explicit grid type).',
  ['histories', 'fault_sequences', 'inputs'],
  'Every sequence of additions (accepted and rejected), replacements, precision choices, writes and storage faults, for grids whose range of valid values fits 32 bits, levels that are whole numbers and not negative (the format uses those for no level), columns that run eastwards where they cross the edge of a cylindrical projection and times within 1969-2068 at minute resolution.',
  'The tests add one to a few grids to a fresh object, write once without faults and read back; they never replace, reject, mix kinds of entries, rewrite, or fail in between.',
  [ENC, DEC, TL, CM],
  [('entries kept in a dict keyed by header, headers sorted on every add', ENC + ': GridFile.add_grid'),
   ('layout pointers recomputed at every write', ENC + ': DataManagementFile._set_pointers/to_gempak'),
   ('GRIB-style packing with missing flag', ENC + ': pack_grib; ' + DEC + ': _unpack_grib')],
  ['GridFile.add_grid/to_gempak return or exception', 'GempakGrid.gdinfo/gdxarray of the written file', 'bytes of the written file followed by an independent reader'],
  [('accepted grids', 'header -> grid array', ENC + ': DataManagementFile.data')])

p('C02', 'Sounding file: the next good write reads back exactly the accepted soundings',
  'After any history of adding, replacing and rejecting soundings on one sounding file object, interleaved with successful and failed writes, the next successful write yields a file that reads back exactly one sounding per accepted (time, station) pair, with the levels last added for it. '
  'Every parameter value comes back as its 32-bit float, NaN or masked comes back as missing, and station identifier (up to 8 characters), number, elevation, state, country and position (to 0.01 degree, rounded to nearest) come back as given. '
  'A rejected addition or a failed write changes nothing, and stations that did not report at a time do not appear at that time.',
  ['histories', 'fault_sequences', 'inputs'],
  'Every sequence of additions (accepted and rejected), replacements, writes and storage faults, any number of times, stations and levels within the format limits.',
  'The tests write a single sounding or a fixed handful once and read it back; sparse time/station matrices, replacement, rejection and rewriting after faults are not explored.',
  [ENC, DEC, CM],
  [('entries kept in a dict keyed by (row, column)', ENC + ': SoundingFile.add_sounding'), ('row/column headers and data pointers', ENC + ': SoundingFile._write_data'), ('merged sounding decoding', DEC + ': GempakSounding')],
  ['SoundingFile.add_sounding/to_gempak', 'GempakSounding.sninfo/snxarray', 'bytes of the written file followed by an independent reader'])

p('C03', 'Surface file: the next good write reads back exactly the accepted reports',
  'After any history of adding, replacing and rejecting station reports on one surface file object, interleaved with successful and failed writes, the next successful write yields a file that reads back exactly one report per accepted (time, station) pair, with the values last added for it. '
  'Every value comes back as its 32-bit float, NaN comes back as missing, and station identifier (up to 8 characters), number, elevation, state, country, priority and position (to 0.01 degree, rounded to nearest) come back as given; times may be given as strings or datetimes. '
  'A rejected addition or a failed write changes nothing, and stations that did not report at a time do not appear at that time.',
  ['histories', 'fault_sequences', 'inputs'],
  'Every sequence of additions (accepted and rejected), replacements, writes and storage faults, any number of times and stations within the format limits.',
  'The tests write a fixed small set of stations once with datetime times; sparse matrices, replacement, rejection, string times and rewriting after faults are not explored.',
  [ENC, DEC, CM],
  [('entries kept in a dict keyed by (row, column)', ENC + ': SurfaceFile.add_station'), ('row/column headers and data pointers', ENC + ': SurfaceFile._write_data'), ('standard surface decoding', DEC + ': GempakSurface')],
  ['SurfaceFile.add_station/to_gempak', 'GempakSurface.sfinfo/sfjson', 'bytes of the written file followed by an independent reader'])

p('C04', 'VGF file: each good write is the element list in order, with current attributes',
  'After any history of adding elements, changing element attributes, rejected changes and successful or failed writes, the next successful write yields a file holding one file-header element followed by exactly the elements added, in the order added, each with the attribute values current at the time of that write. '
  'Repeating the write, or building another file from the same elements, yields the same sequence of elements with the same values. '
  'A rejected attribute value, a rejected element or a failed write leaves the list and every element as they were.',
  ['histories', 'fault_sequences', 'inputs'],
  'Every interleaving of element creation, addition, attribute updates (valid and invalid), re-encoding, writes to the same or different destinations and storage faults, for all element classes the encoder offers.',
  'The tests encode each element class once and compare one file; they never mutate an element between writes, interleave rejected changes, or write repeatedly.',
  [VE, VD],
  [('elements kept in a list and encoded at write time', VE + ': VGFile.add_element/to_vgf'), ('property setters validate then assign', VE), ('file built from a list of encoder elements', VE + ': VGFile.from_elements')],
  ['VGFile.add_element/to_vgf', 'VectorGraphicFile.elements of the written file', 'an independent walk over the record headers'])

p('C05', 'Write honesty: success means the whole file is there, failure is reported',
  'Whenever a write call of any of the file writers returns normally, the destination holds the complete file for the contents at that moment; whenever storage fails (open, write, short write, flush or close; no space or I/O error) or the contents cannot be encoded, the call raises. '
  'Contents that cannot be encoded are reported before an existing destination file is touched. '
  'After any failed write no file handle stays open, and once the fault is gone retrying on the same object produces the same bytes a never-failing writer would have produced.',
  ['fault_sequences', 'crash_points', 'histories'],
  'Every placement of storage faults in every write call, at any byte and any number of times, over existing or new destinations, followed by any number of retries.',
  'The tests write to a healthy temporary directory; no storage fault, short write, unencodable element or retry is ever exercised.',
  [ENC, VE],
  [('whole stream is built in memory, then written inside a with-block', ENC + ': DataManagementFile.to_gempak'), ('with-block around element writes', VE + ': VGFile.to_vgf')],
  ['return/exception of to_gempak and to_vgf', 'destination bytes on the simulated disk', 'open handles on the simulated disk'])

p('C06', 'A torn file is rejected or read exactly; never silently changed data',
  'If a grid, sounding or surface file is cut off at any byte (as a crash during a write leaves it), then opening and querying the remainder either raises or returns exactly the entries and values of the complete file. '
  'If a vector graphic file is cut off at any byte, then opening it either raises or returns exactly the leading elements of the complete file that are wholly present. '
  'In no case is an entry shortened or filled with made-up values, and no entry of a grid, sounding or surface file goes missing without an error.',
  ['crash_points', 'inputs'],
  'Every byte at which a file can be cut, for files of every type, packing and byte order the reader supports.',
  'The tests only open intact files; the number of cut points is the file length and the failure needs a cut inside a particular structure.',
  [TL, DEC, VD],
  [('bounds-checked structure reads', TL + ': IOBuffer.read_struct'), ('record size in every VGF header', VD + ': VectorGraphicFile._decode_elements')],
  ['exception or result of GempakGrid/GempakSounding/GempakSurface and VectorGraphicFile over a cut file'])

p('C07', 'Reading: short reads are harmless, I/O errors surface, no handle leaks',
  'Opening a file whose storage delivers the bytes in arbitrarily small pieces gives the same results as an undisturbed open; if storage fails at any point while opening, the call raises instead of returning an object with partial data, and opening again once the fault is gone gives the correct results. '
  'After opening, whether it succeeded or failed, no file handle stays open. '
  'Once opened, results no longer depend on the file: later overwriting, truncating or deleting it, or storage faults on it, changes no answer.',
  ['fault_sequences', 'schedules', 'inputs'],
  'Every pattern of short reads, every placement of read errors, and every change made to the file after it was opened, for all four readers.',
  'The tests read intact local files, which always arrive in one piece and never change or fail.',
  [DEC, VD, TL],
  [('whole file read into memory inside a with-block before decoding', DEC + ': GempakFile.__init__; ' + VD + ': VectorGraphicFile.__init__'), ('private copy of the bytes', TL + ': IOBuffer')],
  ['results/exceptions of the four readers on the simulated disk', 'open handles on the simulated disk'])

p('C08', 'Query results depend only on the file and the arguments, not on earlier calls',
  'On an opened grid, sounding or surface file every query returns the same as on a freshly opened one, whatever calls (successful, failing or abandoned) came before: exactly the stored entries that match all given filters, in file order where a list is returned. '
  'Filters accept a single value or any sequence of values, identifiers in any letter case, times as datetimes or strings and the words first/last, and no query changes its arguments. '
  'A request that matches nothing is reported as an error or an empty result, never as another entry.',
  ['histories', 'inputs', 'fault_sequences'],
  'Every sequence of queries with any combination of filters and argument forms on one opened object, for files of any content, packing and byte order, with unreadable entries among them.',
  'The tests issue one query per freshly opened file, with few argument forms; state carried between calls through the shared read position is not exercised.',
  [DEC],
  [('every data access seeks from the file start', DEC + ': gdxarray/_unpack_*'), ('filters applied to the index built when opening', DEC + ': gdinfo/sninfo/sfinfo')],
  ['results of gdinfo/gdxarray/sninfo/snxarray/sfinfo/sfjson/nearest_time against a reference model of the file contents'],
  [('read position and scratch header values', 'shared by all queries on the object', DEC + ': GempakFile._buffer, data_ptr, data_header_length')])

p('C09', 'One opened file can be queried from several threads at once',
  'When several threads query the same opened grid, sounding or surface file at the same time, each call returns exactly what it would return if it ran alone, under every interleaving of the threads. '
  'A query that raises, or a thread that stalls in the middle of a query, does not disturb the results or the progress of the others.',
  ['schedules', 'inputs'],
  'Every interleaving, at any point inside the library, of any number of concurrent queries on one opened object, including queries that fail and threads that stall.',
  'The tests are single threaded; a data race needs a pre-emption between two particular steps of two queries.',
  [DEC, TL],
  [('read position and scratch values used while decoding', DEC + ': GempakFile._buffer, data_ptr, data_header_length, grid_meta_int; ' + TL + ': IOBuffer._offset')],
  ['per-thread results against the sequential result'])

p('C10', 'Separate files and writers never influence each other',
  'Operations on one reader or writer object have no observable effect on any other object: under every interleaving of threads that each build, write, open or query their own files, and for any order of creating and using several objects in one thread, each object gives exactly the results it would give on its own. '
  'This includes objects of the same class created with different parameters, and objects whose operations fail.',
  ['schedules', 'histories'],
  'Every interleaving of whole sessions (create, add, write, open, query) on distinct objects, in one or several threads, including failing operations.',
  'The tests use one object at a time; sharing through class attributes, default arguments, module caches or shared scratch state needs two live objects used in a particular order.',
  [DEC, ENC, VD, VE, TL, GC],
  [('per-instance state set up in constructors', ENC + ': DataManagementFile.__init__'), ('struct layouts held in class attributes, immutable', DEC + ', ' + VE)],
  ['bytes written and results returned by each session against the same session run alone'])

p('C11', 'Damaged files: every open and query finishes, and harms nothing else',
  'For a file with flipped bits, overwritten, zeroed, duplicated or missing stretches, or inconsistent counts and pointers, opening and every query on it finishes - with a result or an exception - within time and memory bounded by a fixed multiple of the file size and of the declared grid size that the file can hold. '
  'It never crashes the interpreter, hangs or exhausts memory, and other objects keep giving the correct results afterwards.',
  ['fault_sequences', 'inputs'],
  'Every damage (bit flips, lost or misdirected block writes, zeroed or duplicated stretches, corrupted counts, sizes and pointers) to files of all types, followed by opening and any queries.',
  'No test opens a damaged file; endless loops and memory exhaustion need particular field values.',
  [DEC, VD, TL, GC],
  [('header validation', DEC + ': _process_gempak_header; ' + VD + ': _validate_header'), ('loops driven by stored counts', DEC + ': GempakFile.__init__; ' + VD + ': _decode_elements')],
  ['termination of constructors and queries under a step and memory budget', 'results of a healthy object used before and after'])

p('C12', 'Same inputs give the same bytes and results in every process and environment',
  'For the same sequence of calls, the bytes of written files and the contents and order of query results are identical in every process: independent of string hashing, time zone, locale, clock, working directory, memory layout, optimisation flags and of how often the calls ran before. '
  'The only exceptions are values the caller asked for by reading the clock.',
  ['configurations', 'histories'],
  'Every combination of hash seed, time zone, locale, simulated clock, working directory, interpreter flags and garbage-collection timing, over write and query histories.',
  'The tests run in one environment and mostly compare single values, so dependence on hash order, zone or clock cannot show.',
  [DEC, ENC, VD, VE],
  [('indexes sorted before being returned', DEC + ': gdinfo/sninfo/sfinfo'), ('ordered sets for headers', TL + ': OrderedSet'), ('naive datetimes only', DEC + ', ' + ENC)],
  ['digest of written bytes and of ordered query results across processes'])

p('C13', 'No aliasing: data handed in or out is never shared with later operations',
  'Adding data to a writer never changes the caller\'s arrays, lists, dictionaries or elements lists, and later changes to them by the caller (such as reusing a buffer for the next entry) never change what is written for entries already accepted. '
  'Changing anything a query on a grid, sounding or surface file returned (or the arguments it was given) never changes what later queries on the same object return, and earlier results of any reader never change because of later queries.',
  ['histories', 'inputs'],
  'Every interleaving of additions, caller-side changes to buffers already passed in, writes, queries and caller-side changes to returned objects, for all writers and readers.',
  'The tests pass fresh arrays and discard results; aliasing shows only when a caller reuses a buffer or edits a result between two particular calls.',
  [ENC, DEC, VE, VD],
  [('values stored by the add methods', ENC + ': add_grid/add_sounding/add_station'), ('results built per query', DEC + ': gdxarray/snxarray/sfjson')],
  ['caller-owned inputs before and after', 'files written and results returned after caller-side changes'])

p('C14', 'An interrupted call leaves objects usable and other entries intact',
  'If a call on a writer is interrupted at any point (keyboard interrupt, out of memory), the object stays usable: entries accepted before are unaffected, the interrupted entry is present completely or not at all, and repeating the interrupted call (for element lists: unless the element is there already) and writing gives the same file as if there had been no interruption. '
  'If opening or querying a file is interrupted at any point, later queries and new opens give correct results, and no file handle stays open.',
  ['crash_points', 'histories'],
  'Every point inside the library at which an asynchronous exception can be delivered, in any add, write, open or query call of any history, followed by continued use.',
  'The tests never interrupt a call; the state left behind depends on the exact statement at which the interruption lands.',
  [ENC, DEC, VE, TL],
  [('state updated in several steps by each add', ENC + ': add_grid/add_sounding/add_station'), ('seek before every read', DEC)],
  ['files written and results returned after the interruption against an uninterrupted twin'])

p('C20', 'Every vector graphic record is decoded to what it holds, whatever surrounds it',
  'Opening a vector graphic file gives one element per record of a class and type the library decodes, in file order, each with the class, header fields, coordinates and attribute values stored in its record, for every element class and every stored version of it; text ends at its terminator, and records of other classes or types are passed over. '
  'This depends on nothing but the record: not on the records before or after it, on what is left over behind texts and points, on the pieces in which the file arrives, on opens that failed or were abandoned before, or on files being opened by other threads at the same time.',
  ['inputs', 'schedules', 'fault_sequences'],
  'Every content and version of every element class, in every sequence of records, every delivery of the file, after any failed opens, under any interleaving of opens.',
  'The tests read one or two sample files per class; several classes and versions occur in no sample, and none next to each other.',
  [VD, TL],
  [('per-class, per-version decoders', VD + ': VectorGraphicFile._decode_*'), ('next record found from the record size', VD + ': VectorGraphicFile._decode_elements'), ('structures with named fields', TL + ': NamedStruct')],
  ['VectorGraphicFile.elements, groups and header against a model of the records'])
p('C21', 'Merging of mandatory, significant and wind levels follows GEMPAK rules',
  'For an unmerged sounding the merged profile has the levels and values GEMPAK\'s own merge would produce.',
  ['inputs'], 'Every combination of report parts and missing values.', 'Tests compare a few archived soundings.', [DEC, GC],
  [('level-by-level merge', DEC + ': GempakSounding._merge_*'), ('hydrostatic interpolation', GC)], ['GempakSounding.snxarray'])
p('C22', 'Navigation blocks map grid points to the right latitudes and longitudes',
  'For every supported projection the coordinates computed for a grid equal those of the projection described by the file.',
  ['inputs'], 'All projections, angles and corner points.', 'Tests compare one domain per projection.', [DEC, ENC],
  [('projection mapping tables', DEC + ': GempakGrid._get_crs; ' + ENC + ': GridFile._set_projection_params')], ['lat/lon coordinates of gdxarray'])
p('C23', 'The same contents read the same, whoever laid out the file',
  'Grid, sounding and surface files holding the same contents give the same answers to every query, however the writing machine and program laid them out: either byte order, blocks in any order and with gaps, unused headers in between, and equivalent packings of the same values. '
  'This holds for every order of asking several such files that are open at once, for files delivered in small pieces, and after queries on any of them that failed or were abandoned.',
  ['inputs', 'histories', 'configurations'],
  'Every content in every layout the format allows, all packings, bit widths and values, with several differently laid out files open and queried in any order.',
  'The tests read a few archived files, nearly all from one kind of machine, one at a time; reader state that follows the byte order or layout of another file or entry cannot show.',
  [DEC, TL],
  [('unpackers', DEC + ': _unpack_grib, _unpack_grid, _unpack_real'), ('byte order found from the machine word of each file', DEC + ': GempakFile.__init__, _swap_bytes'), ('pointers relative to the start of the file', DEC)],
  ['results of every query on files with the same contents and different layouts, and against a reference model of the contents'])
p('C24', 'Raw report text stays with its station and time',
  'Every piece of raw report text (METAR and special reports) stored for a station and a time in a surface file is returned with that station, exactly once. '
  'A special report carries the observation time written in its text, taken in the month that brings it nearest to the stored time, also across the ends of months and years; without a valid time in the text it carries the stored time. '
  'Asking for the report nearest a time considers all of them and picks the nearest.',
  ['inputs', 'histories'],
  'Every arrival pattern of reports: late, early, repeated, out of order, garbled, without time or station identifier, at any point of the calendar, and every order of queries on the opened file.',
  'The tests compare one archived file per kind from the middle of a month; month ends, leap days, repeated and garbled reports and times far from the stored one do not occur in them.',
  [DEC],
  [('splitting of stored text into reports', DEC + ': GempakSurface.sfjson'), ('time taken from the report', DEC + ': _report_time'), ('nearest report', DEC + ': GempakSurface.nearest_time')],
  ['sfjson and nearest_time results against a model of the reports collected'])
p('C25', 'Selections, groups, bounds and JSON of a vector graphic file reflect its elements',
  'On an opened vector graphic file, filter_elements, the has_ and get_ methods and get_group return exactly the elements of the file that have the given class, type or group, in file order; bounds is the bounding box of all elements with stored bounds; and to_json gives one entry per element, in file order, with every attribute (array values rounded to two decimals), whatever keyword arguments of json.dumps are used. '
  'Each answer depends only on the file and the arguments, whatever was asked before, by whichever thread, including calls that failed or were abandoned, and whatever happened to the file since it was opened. Nothing found is reported as None or an empty result; an unknown operation as an error.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'Every file content and every sequence of questions, including failing and abandoned ones, from any number of threads.',
  'The tests make three selections on sample files; JSON export, groups, bounds, most get_ methods and any sequence of them are not exercised.',
  [VD],
  [('filter helpers', VD + ': VectorGraphicFile.filter_elements/get_*/has_*'), ('groups', VD + ': VectorGraphicFile.get_group, Group'), ('JSON encoder', VD + ': VectorGraphicFile.to_json, NumpyEncoder')],
  ['filter_elements, has_*, get_*, get_group, groups, bounds, elements, to_json against a model of the records'])
p('C26', 'Thermodynamic helper formulas match GEMPAK',
  'Height, virtual temperature and interpolation helpers return the value of the published formula for all physical inputs.',
  ['inputs'], 'All physical inputs.', 'Tests exercise them only through soundings.', [GC],
  [('formulas', GC)], ['gemcalc functions'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
