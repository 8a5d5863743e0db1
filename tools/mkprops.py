"""Writes /verif/properties.jsonl (the list is easier to keep in step as Python)."""
import json
import os

P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    e = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
                     'hook_needed': hook}}
    if state:
        e['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(e)


ONE = 'The test suite runs on one rank with one schedule and no faults; the tests marked for MPI degenerate to the serial path.'

add('P01', 'A parallel operation returns the serial result',
    'For a gridded dataset and a request (selection geometries, clip or intersects, time and level selection, calculation, '
    'grouping), the pieces that the ranks of a parallel job return assemble to exactly the values, masks, coordinates, '
    'dimension sizes and variable names that the same request returns on one rank. Every element is held by exactly one rank '
    '(or identically by all, for undistributed data), and no rank reports an empty subset as data or data as an empty subset.',
    ['inputs', 'schedules', 'configurations'],
    'for all grids (rectilinear, curvilinear, with or without bounds, masked, any size including fewer cells than ranks), '
    'requests, rank counts and message/scheduling orders',
    ONE, ['src/ocgis/ops/engine.py', 'src/ocgis/spatial/spatial_subset.py', 'src/ocgis/spatial/grid.py', 'src/ocgis/driver/base.py',
          'src/ocgis/variable/base.py', 'src/ocgis/vmachine/mpi.py', 'src/ocgis/vmachine/core.py'],
    [('per-rank local bounds from a distribution object', 'OcgDist.update_dimension_bounds'),
     ('distributed slicing renumbers global bounds collectively', 'Dimension.get_distributed_slice, SourcedVariable slices'),
     ('collective trimming of masked edges', 'get_masking_slice'),
     ('empty ranks are removed from the communicator in force', 'OperationsEngine._process_geometries_')],
    ['return value of OcgOperations.execute on every rank'],
    state=[('current communicator', 'ranks that still hold data', 'vmachine/core.py OcgVM')])

add('P02', 'Parallel jobs always finish; no deadlock, no stray message',
    'Every rank of a parallel job that runs a valid request, a spatial average, a file write, a redistribution or a coordinate '
    'reindexing returns after a bounded number of steps, whatever the relative speed of the ranks and the buffering of the '
    'message layer. All ranks enter the same collective operations in the same order with the same root, and when they have '
    'returned no sent message is left unreceived.',
    ['schedules', 'configurations', 'inputs'],
    'for all rank counts, schedules, stalls, message delays, eager or rendezvous delivery, and inputs that leave some ranks without data',
    ONE, ['src/ocgis/vmachine/core.py', 'src/ocgis/vmachine/mpi.py', 'src/ocgis/variable/geom.py', 'src/ocgis/spatial/geomc.py',
          'src/ocgis/util/helpers.py', 'src/ocgis/driver/base.py', 'src/ocgis/ops/engine.py'],
    [('collectives only on the communicator of the ranks with data', 'vm.scoped / scoped_by_emptyable'),
     ('gather then broadcast of decisions', 'get_masking_slice, Dimension.get_distributed_slice'),
     ('counted point-to-point exchanges', 'redistribute_by_src_idx, GeometryVariable.get_unioned, iter_self_intersects_..., run_rr_*')],
    ['termination of every rank', 'message layer state after return'])

add('P03', 'Files written in parallel equal the files written in serial',
    'A request or variable collection written to netCDF, CSV, CSV with shapefile, shapefile or GeoJSON by any number of ranks '
    'leaves files whose contents (every record exactly once, every array element, attributes, dimensions, selection-geometry '
    'files, metadata files) equal those of a one-rank run and, including the order of the records, do not depend on the '
    'schedule. The files are complete and readable on every rank as soon as the call returns on that rank.',
    ['schedules', 'configurations', 'inputs'],
    'for all output formats, selection geometries, distributions with empty ranks, rank counts and schedules',
    ONE, ['src/ocgis/conv/base.py', 'src/ocgis/conv/nc.py', 'src/ocgis/conv/csv_.py', 'src/ocgis/conv/fiona_.py', 'src/ocgis/driver/base.py',
          'src/ocgis/driver/nc.py', 'src/ocgis/driver/vector.py', 'src/ocgis/driver/csv_.py', 'src/ocgis/ops/interpreter.py'],
    [('template write by the first rank with data, then fill in rank order', 'AbstractDriver.get_write_modes/write_variable_collection'),
     ('rank-ordered appends separated by barriers', 'DriverCSV, DriverVector'),
     ('converter writes only from ranks with data', 'AbstractCollectionConverter.write')],
    ['bytes and records of the output files, read with independent readers'])

add('P04', 'Distributing, scattering, slicing and redistributing data loses nothing',
    'Distributing a dimension over ranks gives contiguous, disjoint, ordered local ranges whose union is the whole, for any '
    'length and rank count. Scattering a variable or collection, gathering it, slicing it by global indices or masks, and '
    'redistributing it each preserve every value, mask, attribute and global position, for all data types and any set of '
    'ranks without data.',
    ['inputs', 'schedules', 'configurations', 'programs'],
    'for all lengths, rank counts, dtypes, masks, sequences of scatter/slice/redistribute/gather, and schedules',
    ONE, ['src/ocgis/vmachine/mpi.py', 'src/ocgis/variable/dimension.py', 'src/ocgis/variable/base.py', 'src/ocgis/vmachine/core.py'],
    [('bounds arithmetic', 'get_rank_bounds, OcgDist, get_global_to_local_slice'),
     ('distributed slice of a dimension', 'Dimension.get_distributed_slice, Variable.get_distributed_slice'),
     ('point-to-point exchange by source index', 'redistribute_by_src_idx'), ('scatter/gather', 'variable_scatter, variable_gather, '
                                                                            'variable_collection_scatter')],
    ['values, masks, bounds of the dimensions and variables on every rank'])

add('P05', 'Parallel coordinate reindexing and global identifiers are consistent',
    'Reducing duplicated coordinate indices over the ranks yields one global numbering: the reduced global list has no '
    'duplicate (or exactly one entry per kept coordinate) and every rank\'s renumbered indices refer to the entry with the '
    'original value. Globally unique arrays and global identifier assignments hold each distinct value exactly once over all '
    'ranks, independent of message order.',
    ['inputs', 'schedules', 'configurations'],
    'for all index arrays (overlapping, repeated, disjoint, any size per rank; ranks without data are outside the communicator), start indices, rank counts and schedules',
    ONE, ['src/ocgis/vmachine/mpi.py', 'src/ocgis/util/helpers.py', 'src/ocgis/spatial/geomc.py', 'src/ocgis/variable/geom.py', 'src/ocgis/spatial/base.py'],
    [('hashed ownership of values', 'create_unique_global_array'), ('master/worker renumbering', 'reduce_reindex_coordinate_index'),
     ('prefix-sum numbering', 'create_ugid_global, get_default_... global ids')],
    ['arrays on every rank'])

add('P06', 'Communicator scopes are always restored and never leak',
    'When a scoped block, an operation or a write finishes, whether it returns or raises, the communicator in force and the set '
    'of named communicators are what they were before, on every rank. A rank outside a scope does no work of the scope, and '
    'inside it rank, size and collectives refer to exactly the ranks of the scope.',
    ['schedules', 'fault_sequences', 'programs', 'histories'],
    'for all nestings of scopes, rank subsets, exceptions at any point, and sequences of operations',
    ONE, ['src/ocgis/vmachine/core.py', 'src/ocgis/ops/core.py', 'src/ocgis/ops/engine.py', 'src/ocgis/conv/base.py', 'src/ocgis/driver/base.py'],
    [('context managers around sub-communicators', 'vm.scoped, scoped_by_emptyable, scoped_barrier'),
     ('operation wrapper finalises', 'OcgOperations.execute, OperationsEngine')],
    ['vm.rank, vm.size, named communicators and live communicators after return'])

add('P07', 'A failed or killed run never damages existing data and can be rerun',
    'An operation never changes its source files or files of a pre-existing output directory it was not told to overwrite, '
    'whatever I/O error or kill interrupts it. After an error the output directory it made is removed, and after an error or a '
    'kill the same request succeeds (with overwriting allowed) and leaves exactly the output of an undisturbed run.',
    ['crash_points', 'fault_sequences', 'inputs'],
    'for all output formats, every file operation as the point of failure (error, full disk, short or torn write, kill) and existing directory contents',
    'Tests exercise two fixed failures of directory creation; no test injects a disk error or a kill.',
    ['src/ocgis/ops/interpreter.py', 'src/ocgis/conv/base.py', 'src/ocgis/driver/base.py', 'src/ocgis/environment.py'],
    [('output directory guard and clean-up', 'OcgInterpreter.execute'), ('overwrite guard', 'env.OVERWRITE checks in converters and interpreter')],
    ['file system tree before and after', 'exception raised to the caller'])

add('P08', 'Operations are independent of the history of the process',
    'The result of an operation does not depend on operations run before it in the same process, whether these succeeded or '
    'failed, and an operation leaves its arguments (fields, geometries, request objects) and the global configuration as they '
    'were. The result for one selection geometry does not depend on the other selection geometries of the request.',
    ['histories', 'fault_sequences', 'inputs'],
    'for all sequences of operations sharing source objects, with failures interspersed',
    'Every test starts from fresh objects and a reset environment; no test compares an operation after a history with the same operation alone.',
    ['src/ocgis/ops/engine.py', 'src/ocgis/ops/core.py', 'src/ocgis/ops/interpreter.py', 'src/ocgis/environment.py', 'src/ocgis/spatial/spatial_subset.py',
     'src/ocgis/util/logging_ocgis.py', 'src/ocgis/collection/field.py', 'src/ocgis/spatial/wrap.py'],
    [('copies before modification', 'Field.copy, deepcopy of geometries'), ('operation-local environment', 'OcgOperations / OcgInterpreter env handling'),
     ('temporary wrapping and CRS of the subset geometry', 'SpatialSubsetter')],
    ['results of each operation against a fresh-process reference', 'arguments and env before and after'])

add('P09', 'Tiled computation equals the one-shot computation',
    'Computing a calculation tile by tile into a netCDF file leaves the same file contents as computing it at once, for every '
    'tile size, selection and temporal grouping, and every element is written exactly once. If a write fails the '
    'caller gets an error rather than a file with holes.',
    ['inputs', 'configurations', 'fault_sequences'],
    'for all grid shapes, tile dimensions, calculations, groupings and storage faults',
    'Tests compare two or three tile sizes on one grid, with no faults.',
    ['src/ocgis/util/large_array.py', 'src/ocgis/calc/tile.py', 'src/ocgis/ops/core.py', 'src/ocgis/conv/nc.py'],
    [('tile schema', 'get_tile_schema'), ('template file then fill by slices', 'large_array.compute')],
    ['variables of the output file'])

add('P10', 'Grid chunking covers source and destination completely and reassembles exactly',
    'Chunking a destination grid yields chunks that partition it, each with a source chunk containing every source cell that '
    'overlaps it plus the requested buffer. The chunk files and index file identify each chunk\'s place, so that inserting '
    'per-chunk weights yields one global weight file referring to the right global cells and every entry occurs once, for any '
    'rank count and schedule. Data inserted from the chunks ends up in its cells with its missing values. Creating a chunker '
    'changes neither its arguments nor other chunkers.',
    ['inputs', 'schedules', 'configurations'],
    'for all grid sizes, chunk counts, buffers, rank counts and schedules',
    'Tests use fixed grids on one rank and need the ESMF library for most of the workflow.',
    ['src/ocgis/spatial/grid_chunker.py', 'src/ocgis/ocli.py', 'src/ocgis/driver/nc_scrip.py'],
    [('split of index ranges', 'iter_dst_grid_slices, create_slices'), ('source subset with buffer', 'iter_src_grid_subsets'),
     ('index file', 'GridChunker.write_chunks/create_index_file'), ('insertion', 'create_merged_weight_file, insert_weighted')],
    ['chunk files, index file, merged file'])

add('P11', 'Parallel unstructured and conversion outputs describe the same mesh as serial',
    'Converting geometries or grids to unstructured or SCRIP form in parallel yields, over all ranks, the same elements with the '
    'same coordinates, connectivity (each element index refers to its own vertices) and global identifiers as one rank. '
    'Writing the result and reading it back on any number of ranks gives the same polygons.',
    ['inputs', 'schedules', 'configurations'],
    'for all polygon sets (holes and multi-part where supported), node packing options, rank counts and schedules',
    ONE, ['src/ocgis/spatial/geomc.py', 'src/ocgis/variable/geom.py', 'src/ocgis/driver/nc_ugrid.py', 'src/ocgis/driver/nc_esmf_unstruct.py', 'src/ocgis/driver/nc_scrip.py'],
    [('node packing', 'GeometryVariable.convert_to'), ('reduction of global coordinates', 'AbstractGeometryCoordinates.reduce_global'),
     ('start index bookkeeping', 'geomc')],
    ['arrays over ranks; files; polygons read back'])

add('P12', 'Storage errors are reported and open files are released',
    'If a disk error (failed or short write, full disk, failed open, failed close) hits a read or write of an operation, the '
    'caller gets an exception, or else the output is identical to that of an undisturbed run; an error never silently loses or '
    'changes data. Whether an operation succeeds or fails, every data file it opened is closed again.',
    ['fault_sequences', 'inputs'],
    'for all formats, operations and positions and kinds of storage faults',
    'No test injects storage faults or counts open files.',
    ['src/ocgis/driver/base.py', 'src/ocgis/driver/nc.py', 'src/ocgis/driver/vector.py', 'src/ocgis/driver/csv_.py', 'src/ocgis/conv/base.py', 'src/ocgis/util/logging_ocgis.py'],
    [('driver scopes close what they open', 'driver_scope'), ('errors propagate', 'converters and drivers')],
    ['exception, output files, open descriptors after the operation'])

add('P13', 'Parallel spatial averages, unions and global reductions equal serial',
    'The spatial average over a selection, the union of geometries, extents, wrapped state, resolution and other quantities that '
    'are reduced over all ranks equal the one-rank result (to rounding) on any rank count, with masked cells excluded and each '
    'cell weighted by its own area. All ranks that receive a reduced quantity receive the same one.',
    ['inputs', 'schedules', 'configurations'],
    'for all grids, masks, selection geometries, rank counts (including more ranks than cells) and schedules',
    ONE, ['src/ocgis/variable/geom.py', 'src/ocgis/spatial/base.py', 'src/ocgis/spatial/grid.py', 'src/ocgis/collection/field.py', 'src/ocgis/ops/engine.py'],
    [('tree union with weights', 'GeometryVariable.get_unioned'), ('gather and reduce', 'extent_global, wrapped_state, resolution')],
    ['values on every rank'])

add('P14', 'Lazily loaded data equals eagerly loaded data under any access history',
    'Data read lazily from a source after any sequence of slices, copies, reorderings and partial loads equals the same '
    'selection of the fully loaded source, including masks and bounds. A failed read leaves the object usable: the same access '
    'succeeds later and returns the right data.',
    ['histories', 'fault_sequences', 'inputs'],
    'for all access sequences over dimensions, interleaved with read errors, on one or several ranks',
    'Tests load after at most one or two slices and never after a failed read.',
    ['src/ocgis/variable/base.py', 'src/ocgis/variable/dimension.py', 'src/ocgis/driver/base.py', 'src/ocgis/driver/nc.py', 'src/ocgis/driver/vector.py'],
    [('source index carried by dimensions', 'Dimension._src_idx'), ('load on first access', 'SourcedVariable.load, driver init_variable_value')],
    ['values, masks after each access'])

add('P15', 'What is written is what is returned',
    'Reading back a file that an operation or a variable collection wrote gives the values, masks, data types, fill values, '
    'attributes, dimension sizes, coordinates, bounds and geometries of the object that was written, on any number of ranks. '
    'Each selection geometry of the request appears once with its own data and identifiers.',
    ['inputs', 'configurations', 'schedules'],
    'for all drivers, dtypes, masks, unlimited dimensions, groups, selection geometries and rank counts',
    'Tests check fixed files on one rank.',
    ['src/ocgis/driver/nc.py', 'src/ocgis/driver/vector.py', 'src/ocgis/driver/csv_.py', 'src/ocgis/conv/base.py', 'src/ocgis/conv/nc.py', 'src/ocgis/collection/spatial.py'],
    [('driver write and read paths', 'DriverNetcdf._write_variable_collection_main_, DriverVector, DriverCSV'),
     ('record iteration', 'Iterator in variable/iterator.py')],
    ['file contents read with independent readers'])

add('P20', 'Coordinate reference system transformations are geodetically correct',
    'Transforming coordinates between reference systems and back gives the original coordinates within tolerance, and '
    'transforming a field transforms all of its coordinates and geometries consistently.',
    ['inputs'], 'for all coordinate systems and coordinates', 'Tests use a handful of systems.',
    ['src/ocgis/variable/crs.py'], [('proj', 'CoordinateReferenceSystem.transform_coordinates')], ['coordinates'])
add('P21', 'Calculations return what their definition says',
    'Each calculation function returns, per cell and temporal group, the mathematical result over the unmasked values of that '
    'cell and group.',
    ['inputs'], 'for all arrays, masks, groupings', 'Tests use fixed arrays.',
    ['src/ocgis/calc/library/statistics.py', 'src/ocgis/calc/base.py', 'src/ocgis/calc/temporal_groups.py'], [('numpy masked arrays', 'calc library')],
    ['output arrays'])
add('P22', 'Time values and datetimes convert consistently in every calendar',
    'Converting between numeric time and datetime objects is exact in both directions in every calendar, and time selections '
    'return exactly the steps inside the requested range.',
    ['inputs'], 'for all calendars, units, values', 'Tests use fixed values.',
    ['src/ocgis/variable/temporal.py'], [('cftime conversion', 'TemporalVariable')], ['time values'])
add('P23', 'Request parameters are validated and normalised before any work starts',
    'An invalid combination of request parameters is rejected with a definition error before data is read or written; parsing a '
    'query string yields the same request as the keyword arguments.',
    ['inputs'], 'for all parameter values', 'Tests use fixed values.',
    ['src/ocgis/ops/parms/definition.py', 'src/ocgis/ops/query.py'], [('parameter classes', 'ops/parms')], ['exceptions'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for e in P:
        f.write(json.dumps(e) + '\n')
