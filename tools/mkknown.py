"""Writes /verif/known_findings.json (edited by hand here; checks only ever read the JSON file)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('P01', 'd0d7782', 'a second dataset or geometry of a parallel request ran on the communicator left by the first one'),
    ('P01', '782a44f', 'ranks of a subset disagreed whether the subset grid carries a spatial mask'),
    ('P04', 'ec4a915', 'a distributed dimension shorter than the minimum block size was placed on no rank'),
    ('P04', 'ec8d422', 'gathering a variable with bounds failed; scattering a collection with groups lost the groups'),
    ('P05', '5326844', 'reindexing: send buffers released while in use, lost searches (receive cancelled after a match) and '
                       'deadlock of ranks that search each other'),
    ('P04', 'ebc054f', 'slicing two dimensions with index arrays broadcast the arrays instead of selecting along each dimension'),
    ('P03', 'c55cd5e', 'ranks disagreed about the first write and about failures when collections are written: truncated or lost '
                       'records, hangs; tabular and vector output of ranks whose records are all masked failed; column types were '
                       'taken from masked values; GeoJSON kept only the records of the last rank and geometry'),
    ('P03', 'f3c6866', 'netCDF fill values were chosen from the mask of the first rank only (masks of other ranks lost); groups '
                       'could not be written in parallel'),
    ('P13', '65eddc5', 'the spatial average over ranks weighted the root with the area of the global union, permuted the rank weights '
                       'from variable to variable, ignored data masks in the rank weights, returned 0 for fully masked data and '
                       'failed for a root other than 0; variables with and without iteration dimensions got wrong dimensions'),
    ('P02', '72c1856', 'vector output hung and clips failed when all cells of a rank between the parts of the selection were masked'),
    ('P13', '940839f', 'the global shape of a grid was stale after a spatial subset on one rank'),
    ('P13', '2f729a8', 'aggregate with calc_raw: every rank kept a field of its own and statistics were averaged per rank'),
    ('P13', 'd9b4466', 'wrapped state over ranks preferred another state than on one rank, or depended on set order'),
    ('P03', 'b5de97a', 'clips producing polygons and multipolygons could not be written to GeoJSON'),
    ('P06', 'ebbb118', 'opening a scope with a name in use leaked or replaced a communicator; freed names stayed known without MPI'),
    ('P06', '30b8a66', 'ranks hung when the output directory could not be made by the first rank'),
    ('P06', 'c6b01bd', 'inside a scope of some ranks metadata files, reads, scatters and redistributions used the ranks of the job'),
    ('P07', '6a9fd7a', 'chunked-rwg removed an existing --wd given with --spatial_subset; a missing one was not created'),
    ('P07', '2979de4', 'a weight file nested in the chunked-rwg working directory was accepted and removed with it'),
    ('P07', 'b4ee7ce', 'existing _ugid and _gid shapefiles were overwritten although overwriting was off'),
    ('P07', '9f981e7', 'a rerun failed on the shapefile a killed run left incomplete'),
    ('P09', '6e825da', 'expression calculations lost the mask of their input'),
    ('P09', '007cc8f', 'file only (tiled) operations calculated multivariate functions while building the template'),
    ('P09', '16eeba4', 'a valid moving window unmasked masked values'),
    ('P09', 'f62620a', 'tiled computation left its own callback in the operations of the caller'),
    ('P09', '3f6ab3f', 'tiled computation with optimizations ignored time and level subsets'),
    ('P09', '4917e27', 'tiled computation with optimizations did not reorder or extrapolate bounds'),
    ('P09', '26eed7a', 'tiled computation of a request with conform units and a geometry failed'),
    ('P09', '89dc673', 'tiled computation with optimizations ignored the slice of the operations'),
    ('P08', 'c140cfa', 'writing a field to netCDF changed attributes and masks of the field of the caller'),
    ('P08', '5af1b20', 'a field passed as dataset was wrapped, conformed, annotated in place by operations'),
    ('P08', '955db55', 'a subset changed the mask of the field it was taken from'),
    ('P08', '94ca0f5', 'a failed subset left shifted longitudes in its target'),
    ('P08', 'b7dfdfb', 'with spatial wrapping the second selection geometry was applied to longitudes wrapped for the first one'),
    ('P08', 'a3a023f', 'with an output coordinate system the second selection geometry was applied to geometries transformed for the first one'),
    ('P08', 'b759fe8', 'a selection covering all geometries of a vector source failed'),
    ('P14', 'f8f2fcb', 'setting the mask of a grid with cascade dropped the missing values of variables'),
    ('P14', 'a854a73', 'collections could not be sliced with lists or open-ended slices'),
    ('P14', '1718271', 'loading one variable of a table replaced the values of others, or failed for subsets'),
    ('P14', 'c7f1b71', 'strings and multi-file variables selected by index arrays failed or returned other elements'),
    ('P08', '937a2a5', 'renaming a dimension renamed it in the copies of the collection as well'),
    ('P14', 'a6f6a61', 'extrapolating bounds of a grid with one row or column failed after it set the bounds of one coordinate'),
    ('P10', '43c45c3', 'chunk counts close to the size of a dimension made empty chunks and failed'),
    ('P10', '3977205', 'grid resolution was wrong for coordinates on both sides of zero and not a number for a single element'),
    ('P10', '21ded9d', 'ranks buffered chunks with the resolution of their own part of a grid, or failed if they had none'),
    ('P10', 'eb9ebc3', 'creating a grid chunker wrote the working directory into the default paths of later chunkers'),
    ('P10', 'c3e8c79', 'missing values of weighted chunks became numbers in the destination when the fill values differ'),
    ('P11', '612d1c3', 'asking a dimension map for a topology it does not have added an empty entry, which later failed'),
    ('P11', 'bcf2667', 'node indices with a start index of one were changed in place (each use shifted them) and multi-part breaks were shifted; two-dimensional ESMF connectivity could not be read'),
    ('P11', 'be966f4', 'conversion to unstructured form looked for multi-part geometries in the first record of a rank only'),
    ('P11', '6aff3fa', 'unstructured files written on several ranks had indices into the nodes of each rank'),
    ('P11', '84d993e', 'reducing the nodes of a mesh over ranks lost the start index and failed for ranks without nodes of their own'),
    ('P15', 'fc16204', 'variables in nested netCDF groups could not be read'),
    ('P15', 'ef4ee15', 'selection geometries were written to the _ugid shapefile once for every dataset'),
]
ESMF = 'the elements of an ESMF unstructured file (elementConn is one vector) read on several ranks get the nodes of other elements: ' \
       'PolygonGC.get_element_node_connectivity_by_index counts from the first element of the rank'
FINDINGS = [
    {'id': 'esmf-read-on-ranks', 'property': 'P11', 'scenario': 'convert', 'kind': 'other-polygon', 'contains': ['read from ESMF on '],
     'what': ESMF},
]

if __name__ == '__main__':
    json.dump({'findings': FINDINGS, 'fixed': ['fixed: property={} {} {}'.format(*f) for f in FIXED]},
              open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
