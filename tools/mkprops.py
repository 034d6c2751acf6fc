#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Harmonic prediction is the nodally corrected sum of its constituents",
 "The tide predicted for a point and time is exactly the sum, over the supplied constituents, of nodal factor times amplitude times the cosine of (equilibrium argument plus nodal phase minus Greenwich phase), under the argument convention of the chosen model family. The value is the same whether it is requested as a map at one time, as a drift of paired points and times, or as a time series at one point; it is linear in the supplied constants and depends only on the constants and time of that point. A result is masked exactly where any constituent used is masked.",
 ["inputs", "configurations"],
 "every constituent of the vocabulary, every nodal-correction family, every prediction entry point, every mask pattern and every permutation/partition of points, constituents and times of a finite lattice",
 "The stable tests never call the three prediction entry points with constants; the remaining ones need downloaded model files.",
 ["pyTMD/predict.py", "pyTMD/arguments.py"],
 [("map", "pyTMD.predict.map"), ("drift", "pyTMD.predict.drift"), ("time_series", "pyTMD.predict.time_series")])

prop("P02", "Equilibrium arguments and frequencies follow the Doodson numbers",
 "For every supported constituent the equilibrium argument at any time is the integer Doodson combination of the lunar day angle, the mean longitudes of moon, sun, lunar perigee, lunar node and solar perigee plus the quarter-cycle offset, for single constituents and for any list of constituents in any order. Published angular frequencies equal the time derivative of that argument, and the tabulated species, amplitude, phase and Love-number parameters agree with it. An unsupported name raises an error or is reported as zero as documented, and never silently takes another constituent's values.",
 ["inputs", "configurations"],
 "every constituent name and alias known to the library, every sub-list up to three names and permutation of a list, over a lattice of dates from 1900 to 2100 and every argument family",
 "The tests compare two tables of the library with each other at one date; they never vary order, lists, dates or model family.",
 ["pyTMD/arguments.py"],
 [("arguments", "pyTMD.arguments.arguments"), ("coefficients", "pyTMD.arguments.coefficients_table"), ("frequency", "pyTMD.arguments.frequency"), ("parameters", "pyTMD.arguments._constituent_parameters")])

prop("P03", "Nodal corrections follow the published satellite modulation formulas",
 "For each supported constituent and each correction family, the nodal factor and nodal phase equal the published modulation formulas of the lunar node and perigee, are periodic in 360 degrees of the node and perigee longitudes, and constituents without a published modulation are uncorrected. Compound and overtide corrections are the product of the component factors and the signed sum of the component phases. The correction of a constituent does not depend on which other constituents are requested with it, nor on the array of times it is computed with.",
 ["inputs", "configurations"],
 "every constituent x every correction family x lattices of node, perigee and solar longitudes covering the full circle; every pair of constituents in a request",
 "The tests call the nodal routine only at one epoch, and only to compare two code paths of the library.",
 ["pyTMD/arguments.py"],
 [("nodal", "pyTMD.arguments.nodal"), ("nodal_modulation", "pyTMD.arguments.nodal_modulation"), ("minor_arguments", "pyTMD.arguments.minor_arguments")])

prop("P04", "Inferred minor constituents interpolate the admittance of the majors",
 "Inferring minor constituents adds exactly the sum of the minor tides whose amplitudes are interpolated from the admittance of the supplied major constituents, for each inference scheme and constituent family. Constituents that are supplied as majors are never inferred as well, the result is linear in the supplied constants and independent of the order of the majors, and any chosen subset of minors gives the sum of the individually inferred ones. Requests without enough majors, or without any matching minors, yield no contribution or an explicit error, never a wrong value.",
 ["inputs", "configurations"],
 "every subset of majors around the minimum needed, every singleton and pair of minors, every inference scheme and correction family, every permutation class of the majors on a lattice of constants and dates",
 "No stable test infers minor constituents.",
 ["pyTMD/predict.py", "pyTMD/arguments.py"],
 [("infer_minor", "pyTMD.predict.infer_minor"), ("semi-diurnal", "pyTMD.predict._infer_semi_diurnal"), ("diurnal", "pyTMD.predict._infer_diurnal"), ("long period", "pyTMD.predict._infer_long_period")])

prop("P05", "Doodson, Cartwright and extended Doodson numbers convert without loss",
 "Converting Doodson or Cartwright coefficients to a Doodson number and back, or to an extended letter code and back, returns the original coefficients for every combination representable in the notation. Looking up a constituent yields its published Doodson number in every output format, and looking up a number yields the original coefficients. Coefficients that cannot be represented raise an error instead of aliasing another number.",
 ["inputs"],
 "all coefficient six- or seven-tuples within the representable digit range (exhaustive product), every constituent name, every output format",
 "Tests only check the table of constituents; aliasing occurs for coefficient values not in the table.",
 ["pyTMD/arguments.py"],
 [("doodson_number", "pyTMD.arguments.doodson_number"), ("_to_doodson_number", "pyTMD.arguments._to_doodson_number"), ("_from_doodson_number", "pyTMD.arguments._from_doodson_number"), ("_to_extended_doodson", "pyTMD.arguments._to_extended_doodson"), ("_from_extended_doodson", "pyTMD.arguments._from_extended_doodson")])

prop("P06", "Astronomical angles and solar and lunar positions are correct and consistent",
 "Mean longitudes, Delaunay arguments, obliquity and nutation follow their published polynomial and series expansions at every date and are reduced to their stated range, element by element of any array of dates. Rotation, frame-bias, precession and nutation matrices are proper rotations, and sidereal angles advance at the Earth rotation rate with the equation of the equinoxes applied in consistent units. Solar and lunar positions lie at physical distances and their Earth-fixed coordinates are their inertial coordinates (from the approximate series or a supplied kernel) turned by the Earth rotation for that date.",
 ["inputs"],
 "a lattice of dates from 1900 to 2100 including day and century boundaries, every method and option, scalar and array input",
 "Tests check single dates and need a downloaded ephemeris for positions.",
 ["pyTMD/astro.py", "pyTMD/math.py"],
 [("mean_longitudes", "pyTMD.astro.mean_longitudes"), ("phase_angles", "pyTMD.astro.phase_angles"), ("gast", "pyTMD.astro.gast"), ("itrs", "pyTMD.astro.itrs"), ("solar_ecef", "pyTMD.astro.solar_ecef"), ("lunar_ecef", "pyTMD.astro.lunar_ecef"), ("rotate", "pyTMD.math.rotate")])

prop("P07", "Long-period equilibrium tides are the second-degree zonal equilibrium response",
 "The long-period equilibrium tide equals the published sum of long-period constituents scaled by the Love-number factor times the second-degree zonal harmonic of latitude. It is symmetric about the equator, vanishes at the latitude where that harmonic is zero, scales with the Love-number factor, and restricting the constituents gives the matching partial sum. Maps, drifts and series built from it agree point by point for every shape combination of times and latitudes.",
 ["inputs", "configurations"],
 "all listed constituents individually and in pairs, lattice of latitudes and dates, all time/latitude shape combinations, all Love-number settings",
 "The one related test compares against the full sum at a single latitude set.",
 ["pyTMD/predict.py", "pyTMD/compute.py"],
 [("equilibrium_tide", "pyTMD.predict.equilibrium_tide"), ("LPET_elevations", "pyTMD.compute.LPET_elevations")])

prop("P08", "Load and ocean pole tide displacements follow the IERS conventions",
 "Solid-earth load pole tide displacements equal the degree-two order-one response of the IERS Conventions to the polar motion offset from the secular or mean pole of the chosen convention, and ocean pole tide displacements equal the real self-consistent equilibrium combination of the supplied ocean pole tide coefficients. Displacements vanish when the pole equals the secular pole, are linear in the pole offset, and vector components transform consistently between Cartesian and local frames. Grid, drift and time-series requests agree point by point.",
 ["inputs", "configurations"],
 "lattice of positions and of epochs within the Earth-orientation tables, all conventions, all ellipsoids, all request types",
 "Tests use one location and one epoch table; they do not vary conventions or request types.",
 ["pyTMD/predict.py", "pyTMD/compute.py"],
 [("load_pole_tide", "pyTMD.predict.load_pole_tide"), ("ocean_pole_tide", "pyTMD.predict.ocean_pole_tide"), ("LPT_displacements", "pyTMD.compute.LPT_displacements"), ("OPT_displacements", "pyTMD.compute.OPT_displacements")])

prop("P09", "Solid earth tides follow the IERS step-one and step-two corrections",
 "Solid earth tide displacements at any station are the IERS in-phase degree-two and degree-three responses to the given sun and moon positions plus the out-of-phase, latitude-dependence and frequency-dependence corrections. They respect the symmetries of that model: rotation of the whole system about the polar axis, mirror reflection, and doubling of the second-degree in-phase part with doubled tide-generating mass. Converting between tide-free and mean-tide systems adds exactly the permanent latitude-dependent displacement.",
 ["inputs", "configurations"],
 "lattice of station latitudes and longitudes including poles and equator, lattice of body geometries and epochs, all tide systems",
 "The stable test suite runs no solid-earth-tide test; the upstream tests check two stations and epochs.",
 ["pyTMD/predict.py", "pyTMD/compute.py"],
 [("solid_earth_tide", "pyTMD.predict.solid_earth_tide"), ("out-of-phase", "pyTMD.predict._out_of_phase_diurnal"), ("latitude dependence", "pyTMD.predict._latitude_dependence"), ("frequency dependence", "pyTMD.predict._frequency_dependence_diurnal"), ("SET_displacements", "pyTMD.compute.SET_displacements")])

prop("P10", "Geometric coordinate conversions are mutually inverse on their whole domain",
 "Conversions between geodetic, geocentric, Cartesian, spherical, local east-north-up, local angle/elevation and degree-minute-second coordinates invert each other to numerical precision for every position, and every solver option for the inverse gives the same answer. Converting heights or coordinates between ellipsoids preserves the physical point and inverts when the ellipsoids are swapped. Each element of an array is converted independently of the others, including poles, the equator, the date line and negative angles, and the inputs are left unchanged.",
 ["inputs"],
 "full product lattice of latitude, longitude, height, ellipsoids and solver options including all degenerate positions and all small arrays mixing them",
 "Stable tests run none of the spatial conversions; upstream tests use a single random set away from singular points.",
 ["pyTMD/spatial.py"],
 [("to_cartesian", "pyTMD.spatial.to_cartesian"), ("to_geodetic", "pyTMD.spatial.to_geodetic"), ("to_ENU", "pyTMD.spatial.to_ENU"), ("to_sphere", "pyTMD.spatial.to_sphere"), ("to_dms", "pyTMD.spatial.to_dms"), ("convert_ellipsoid", "pyTMD.spatial.convert_ellipsoid")])

prop("P11", "Projection conversions invert and ellipsoid constants are self-consistent",
 "Every named projection used by a tide model converts forward and backward without moving a point, keeps longitude conventions, and accepts every documented way of naming a coordinate reference system with the same result. Every named ellipsoid has its published defining parameters, and its derived quantities satisfy the closed relations of the reference ellipsoid: axes, flattening, eccentricities, radii, areas, volumes and normal gravity; polar stereographic scale factors are the true distance and area distortion. Unknown names raise an error.",
 ["inputs", "configurations"],
 "every named projection x lattice of points in both directions, every ellipsoid x every derived quantity and unit system",
 "Tests check a few projections at sample points and no derived relation of the ellipsoids other than WGS84.",
 ["pyTMD/crs.py"],
 [("crs", "pyTMD.crs.crs"), ("datum", "pyTMD.crs.datum"), ("scale_factors", "pyTMD.spatial.scale_factors")])

prop("P12", "Interpolation reproduces the grid and respects invalid cells",
 "Interpolating gridded data at grid nodes returns the node values, interpolating between nodes returns the bilinear (or requested) combination of the surrounding nodes only, and points outside the grid are invalid. Invalid nodes never contribute a number to the result: a point is valid only when its valid neighbours define it. Results are equivariant under reordering of points and under shifting the grid origin, and are the same for any single point computed alone or within a batch.",
 ["inputs"],
 "every small grid with every mask pattern of a cell neighbourhood and every lattice offset of the query point including nodes, edges and corners, for each interpolation method",
 "The interpolation tests are not in the stable suite and use smooth unmasked functions only.",
 ["pyTMD/interpolate.py"],
 [("bilinear", "pyTMD.interpolate.bilinear"), ("spline", "pyTMD.interpolate.spline"), ("regulargrid", "pyTMD.interpolate.regulargrid")])

prop("P13", "Extrapolation takes the nearest valid node within the cutoff",
 "Extrapolated values are those of the nearest valid grid node, measured in kilometres on the given geometry, when it is within the cutoff distance, and are invalid otherwise. The result does not depend on other query points, on invalid nodes, or on how longitudes are expressed; an infinite cutoff always finds a value while any valid node exists.",
 ["inputs"],
 "every mask pattern of small grids x lattice of query points x cutoff thresholds at and around each node distance x geographic and projected geometry",
 "No stable test calls the extrapolation; the upstream one checks a single spacing without masks.",
 ["pyTMD/interpolate.py"],
 [("extrapolate", "pyTMD.interpolate.extrapolate")])

prop("P14", "Tide model files written by the library read back unchanged",
 "Any grid of constituents, bathymetry and mask written in one of the supported model formats reads back with the same coordinates, values, constituent names and missing cells, whatever the grid shape, hemisphere, number and order of constituents, variable type and compression. Interpolated constants from those files equal the written values at grid nodes. Reading never alters the file.",
 ["inputs", "configurations"],
 "every format x variable type x compression x small grid shape x constituent list x mask pattern",
 "The stable tests exercise no reader or writer of model files; the others need downloaded models.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py"],
 [("OTIS writers/readers", "pyTMD.io.OTIS.output_otis_grid / read_otis_grid / output_otis_elevation / read_otis_elevation / output_otis_transport / read_otis_transport"), ("FES", "pyTMD.io.FES.output_netcdf_file / read_netcdf_file"), ("GOT", "pyTMD.io.GOT.output_netcdf_file / read_netcdf_file"), ("ATLAS", "pyTMD.io.ATLAS.read_netcdf_file")])

prop("P15", "Published model encodings are decoded exactly",
 "Model files laid out by their published formats (binary tables with staggered velocity nodes, compact global files with local patches, hierarchical tables, gridded text with any number of columns, compressed or not) decode to the encoded coordinates, masks, amplitudes and phases. Transports become velocities by dividing by the local depth in the stated units, and velocity components are taken at their staggered nodes. The decoding is independent of how values happen to be arranged across records and lines.",
 ["inputs", "configurations"],
 "an independent encoder of each format x every small grid shape (including sizes around record lengths) x constituent lists x mask patterns",
 "Files in these formats are only available by download, so no stable test reads them.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py"],
 [("atlas compact", "pyTMD.io.OTIS.read_atlas_grid / read_atlas_elevation / read_atlas_transport / combine_atlas_model"), ("tmd3", "pyTMD.io.OTIS.read_netcdf_grid / read_netcdf_file"), ("ascii", "pyTMD.io.FES.read_ascii_file / pyTMD.io.GOT.read_ascii_file"), ("units", "pyTMD.io.OTIS.extract_constants")])

prop("P16", "Extracting constants equals reading the model and then interpolating",
 "Extracting tidal constants at points directly from model files gives the same amplitudes, phases, depths and validity as reading the model once and interpolating it, for every format, variable type and interpolation method. The constants at a point do not depend on the other points requested, on whether longitudes are expressed in the -180 to 180 or 0 to 360 convention, or on cropping the model to a region that contains the point with margin. Global grids are continuous across the date line and points outside the model domain are invalid.",
 ["inputs", "configurations", "histories"],
 "format x variable x method x crop x extrapolation x longitude convention x batch composition over lattice points on small global and regional models",
 "Needs model files; no stable test extracts constants.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py", "pyTMD/io/model.py"],
 [("extract", "extract_constants of each format"), ("read+interpolate", "read_constants / interpolate_constants of each format"), ("model", "pyTMD.io.model.extract_constants")])

prop("P17", "High-level tide computation equals its documented composition",
 "Computing tides at coordinates gives the values obtained by converting coordinates to geographic, extracting constants, and predicting with the time converted from the caller's epoch and standard, for every request type (drift, grid, time series), time standard, epoch and coordinate reference system. The same physical request expressed with another epoch, standard, date type, projection or request type gives the same values. Outside the model the result is masked or filled with the requested fill value.",
 ["inputs", "configurations"],
 "request type x epoch x time standard x coordinate system x corrections x inference x crop x fill options over small synthetic models",
 "No stable test runs the high-level computation because it needs a model.",
 ["pyTMD/compute.py", "pyTMD/time.py"],
 [("tide_elevations", "pyTMD.compute.tide_elevations"), ("tide_currents", "pyTMD.compute.tide_currents")])

prop("P18", "Model definitions resolve to the right files and survive a round trip",
 "Every model in the database resolves to its own format, constituents, files, variable and unit scale for elevations and currents, and names not in the database or files not present raise an error. Extra databases add or override only the models they name, leaving all others available. A definition written from a model and read back (as JSON or any accepted handle) describes the same model, and compression changes only file suffixes.",
 ["inputs", "configurations", "histories"],
 "every model x group x compression; every sequence of extra-database operations up to three; every definition file format and handle type",
 "Tests check keys of the shipped database, not extra-database merging, all groups, or round trips.",
 ["pyTMD/io/model.py", "pyTMD/data/database.json"],
 [("load_database", "pyTMD.io.model.load_database"), ("model", "pyTMD.io.model.model"), ("from_file", "pyTMD.io.model.model.from_file"), ("to_dict", "pyTMD.io.model.model.to_dict")])

prop("P19", "Data files round-trip values, missing data, time and attributes",
 "Data written to ascii, netCDF4, HDF5, GeoTIFF or parquet and read back give the same values, coordinates, times, missing-value positions and projection, for drift, grid and time series layouts of any size, with and without compression or in-memory handles. Writing never modifies the caller's data or attributes. Any documented column, field or filename mapping selects exactly the requested variables.",
 ["inputs", "configurations"],
 "format x layout type x small sizes (including one and equal dimensions) x missing patterns x compression x handle type",
 "The spatial file tests are not in the stable suite and write only one shape of drift data.",
 ["pyTMD/spatial.py"],
 [("writers", "pyTMD.spatial.to_ascii / to_netCDF4 / to_HDF5 / to_geotiff / to_parquet"), ("readers", "pyTMD.spatial.from_ascii / from_netCDF4 / from_HDF5 / from_geotiff / from_parquet"), ("data_type", "pyTMD.spatial.data_type")])

prop("P20", "Downloads deliver the complete remote file or fail visibly",
 "Whenever a fetch over HTTP, FTP or an authenticated archive reports success, the returned buffer and the requested local file hold exactly the bytes the server sent, with the remote modification time where provided. A local file whose checksum already matches is left untouched, and any connection error, authentication failure, timeout or interrupted transfer is reported as an error without corrupting a previously good local file before any data arrived. Nothing outside the requested local path is written.",
 ["fault_sequences", "crash_points", "inputs"],
 "every protocol x local state (absent, equal, different) x hash given or not x chunk size x fault at every protocol step",
 "Tests need the network; none injects faults.",
 ["pyTMD/utilities.py"],
 [("from_http", "pyTMD.utilities.from_http"), ("from_ftp", "pyTMD.utilities.from_ftp"), ("from_cddis", "pyTMD.utilities.from_cddis"), ("from_jpl_ssd", "pyTMD.utilities.from_jpl_ssd")])

prop("P21", "Server listings keep every entry paired with its modification time",
 "Listing a remote directory returns exactly the entries matching the requested pattern, each paired with its own modification time, in server order or sorted consistently when sorting is requested. A failed or incomplete listing is reported as such and never as an empty or shorter directory.",
 ["inputs", "fault_sequences", "histories"],
 "all small directory listings x patterns x sort flags x protocols x a fault at every protocol step",
 "Tests need the network.",
 ["pyTMD/utilities.py"],
 [("ftp_list", "pyTMD.utilities.ftp_list"), ("http_list", "pyTMD.utilities.http_list"), ("cddis_list", "pyTMD.utilities.cddis_list"), ("iers_list", "pyTMD.utilities.iers_list")])

prop("P22", "Login succeeds with valid credentials from any source and stops when bounded",
 "Authenticating to a data archive uses a complete netrc entry for the archive first, then explicit credentials, then environment variables, then a prompt, and presents exactly the resulting username and password to the server. Wrong credentials lead to at most the configured number of retries, each with freshly prompted credentials, followed by an explicit failure; a success at any attempt returns a usable session. Secrets are never written to disk or printed.",
 ["configurations", "fault_sequences", "histories"],
 "every combination of credential sources x every accept/reject sequence of the server up to the retry bound",
 "Tests need the network and credentials.",
 ["pyTMD/utilities.py"],
 [("attempt_login", "pyTMD.utilities.attempt_login"), ("build_opener", "pyTMD.utilities.build_opener"), ("check_credentials", "pyTMD.utilities.check_credentials")])

prop("P23", "Tidal ellipse parameters are an exact description of the current",
 "The ellipse computed from the zonal and meridional tidal currents has the semi-major and semi-minor axes, inclination and phase of the actual motion: tracing it reproduces the current at every phase, and converting ellipse parameters back returns the original amplitudes and phases. Axes satisfy major >= |minor| with the sign of the minor axis giving the sense of rotation, angles are in their documented range, and masks are preserved element by element.",
 ["inputs"],
 "product lattice of component amplitudes and phases including zero, rectilinear and circular motion; both rotation senses; every mask of small arrays",
 "The ellipse routines are not covered by the stable tests.",
 ["pyTMD/ellipse.py"],
 [("ellipse", "pyTMD.ellipse.ellipse"), ("inverse", "pyTMD.ellipse.inverse")])

prop("P24", "The constituents container behaves as an ordered map of harmonic constants",
 "After any sequence of append, update, pop, iteration and field access the container holds exactly the constituents of an ordered mapping under the same operations, in insertion order, with their values unchanged. Amplitude and phase follow from the stored complex value, and the list of names, count, iteration and lookups agree with one another. Unknown names raise an error, removed fields stay removed, and parsing of the filenames of supported constituents returns the constituent meant.",
 ["histories", "inputs"],
 "all operation sequences up to depth six over an alphabet of names, values and masks; every constituent name in every filename pattern",
 "Tests only parse constituent names; no operation sequence is tested.",
 ["pyTMD/io/constituents.py"],
 [("constituents", "pyTMD.io.constituents.constituents"), ("parse", "pyTMD.io.constituents.constituents.parse")],
 state=[("fields", "ordered list of constituent names"), ("values", "complex constants per constituent")])

prop("P25", "Splitting or reducing a model preserves its constants",
 "Cropping a global model to bounds, subsetting a model file to a region, or selecting constituents yields a model whose values at retained nodes are those of the original, with consistent coordinates across the date line. Values interpolated well inside the region are the same as from the full model. Nothing outside the requested region, within the buffer, is dropped from inside it.",
 ["inputs", "configurations"],
 "all crop windows of small global and regional grids x buffers x staggered node types x longitude conventions",
 "The stable tests have one padding test only.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py", "pyTMD/io/ATLAS.py", "scripts/reduce_OTIS_files.py"],
 [("crop", "_crop/_shift/_extend of each format"), ("reduce", "scripts/reduce_OTIS_files.py")])

prop("P26", "Command-line programs write what the library computes",
 "Each tide program run on an input data file writes, for every accepted file format and data layout (the output has the format of the input), the values the library computes for those coordinates and times with the same options, plus the coordinates and times of the input. Missing model data are written as the fill value (or as NaN in parquet files). Options absent take their documented defaults, and a run that fails reports the error and writes no values.",
 ["configurations", "inputs"],
 "program x input format x output format x layout type x time units x projection on small inputs",
 "No stable test runs the programs.",
 ["scripts/compute_tidal_elevations.py", "scripts/compute_tidal_currents.py", "scripts/compute_LPET_elevations.py", "scripts/compute_LPT_displacements.py", "scripts/compute_OPT_displacements.py", "scripts/compute_SET_displacements.py"],
 [("elevations", "scripts/compute_tidal_elevations.py"), ("LPET", "scripts/compute_LPET_elevations.py"), ("SET", "scripts/compute_SET_displacements.py")])

prop("P27", "Library calls are pure and independent of call history",
 "No library call changes the arrays, dictionaries or constituent objects passed to it, and no sequence of previous calls changes what a later call returns. Repeating any sequence of calls in any order, including sharing one loaded model or constituent object between interpolation methods and predictions, gives for each call the result it gives alone.",
 ["histories"],
 "all call sequences up to length three over an alphabet of library calls sharing the same argument objects",
 "Tests run each call on fresh inputs and never examine inputs after the call.",
 ["pyTMD/predict.py", "pyTMD/arguments.py", "pyTMD/io/ATLAS.py", "pyTMD/io/OTIS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py", "pyTMD/io/model.py", "pyTMD/spatial.py"],
 [("interpolate_constants", "interpolate_constants of each format"), ("model.extract_constants", "pyTMD.io.model.extract_constants")],
 state=[("loaded model", "constituents object shared between calls"), ("model object", "model metadata reused between extractions")])

prop("P28", "Solving for constants recovers the constants of a predicted series",
 "Fitting a time series generated by the library from known amplitudes and phases returns those amplitudes and phases for every solver, constituent set resolvable over the record, and correction family, up to numerical precision. A constant offset of the series does not leak into the constants, and the fit does not depend on the order of observations or constituents.",
 ["inputs", "configurations"],
 "constituent subsets x solver x correction family x offset x record layout on a lattice of amplitudes and phases",
 "The stable tests contain no fit.",
 ["pyTMD/solve/constants.py", "pyTMD/predict.py"],
 [("constants", "pyTMD.solve.constants.constants")])

prop("P29", "Love numbers, Legendre functions and polynomial helpers match their definitions",
 "Associated Legendre functions and their derivatives, spherical harmonics, polynomial sums, angle reductions and rotations equal their mathematical definitions for every supported degree, order and argument, including poles. Frequency-dependent Love numbers follow the published resonance formulas in each band for each Earth model, are continuous in frequency away from resonance and equal the published nominal values outside it.",
 ["inputs"],
 "all degrees and orders supported x lattice of arguments; all constituents x methods for Love numbers",
 "Tests check degrees up to three at sample colatitudes and a handful of constituents.",
 ["pyTMD/math.py", "pyTMD/arguments.py"],
 [("legendre", "pyTMD.math.legendre"), ("sph_harm", "pyTMD.math.sph_harm"), ("polynomial_sum", "pyTMD.math.polynomial_sum"), ("normalize_angle", "pyTMD.math.normalize_angle"), ("_love_numbers", "pyTMD.arguments._love_numbers")])

prop("P30", "Domain tests agree with where the model gives a tide",
 "A point is reported inside a tide model exactly when it lies within the model grid and at least one valid model node contributes to the chosen interpolation there, so that a point with a tide by plain interpolation is never reported outside, and a point without any valid node around it is never reported inside. This holds for every model format and interpolation method, across the seam of global grids, in any longitude convention or coordinate reference system, and for scalar, list or array input of any shape. The answer for a point does not depend on the other points tested.",
 ["inputs", "configurations"],
 "format x method x mask patterns x lattice of points inside, on the border and outside of small models x projections",
 "No stable test computes a model mask.",
 ["pyTMD/compute.py", "pyTMD/check_points.py"],
 [("tide_masks", "pyTMD.compute.tide_masks")])

prop("P31", "Utility routines for hashes, paths, arguments and dates are exact",
 "Checksums equal the true digest of the bytes of files, compressed files and in-memory handles for every algorithm of fixed digest length; argument files expand to the same options as the command line; address splitting and joining are inverse; filename matching finds a file only if the names agree up to letter case. Complete dates in every accepted text form, with numeric, universal or no time zone, convert to the same instant regardless of the machine's time zone, and roman numerals and rounding helpers match their definitions.",
 ["inputs", "configurations"],
 "product of small strings over the special characters, all sizes around chunk limits, all time zones of a set, all date formats",
 "Tests check a few literal examples on one machine configuration.",
 ["pyTMD/utilities.py"],
 [("get_hash", "pyTMD.utilities.get_hash"), ("convert_arg_line_to_args", "pyTMD.utilities.convert_arg_line_to_args"), ("case_insensitive_filename", "pyTMD.utilities.case_insensitive_filename"), ("get_unix_time", "pyTMD.utilities.get_unix_time"), ("isoformat", "pyTMD.utilities.isoformat")])

prop("P32", "Model download programs deliver every selected file and resume safely",
 "For every model and option, the GSFC, AVISO and Arctic Data programs place exactly the selected files of the provider below the chosen directory, with the bytes, names, modification times (where the source has them) and permissions of the source, compressing the named formats on request and leaving all other files alone; GSFC and AVISO files that are not older than the source are kept as they are. When the network fails at any step, the disk fills at any byte or the run is interrupted before any file operation, the GSFC and AVISO programs report it, leave each file either as it was or complete, and the next undisturbed run delivers everything. The verification program accepts a local TPXO9 model only if every selected file has the checksum given by the server, and never changes contents.",
 ["fault_sequences", "crash_points", "configurations"],
 "every model x option set x state of local files; every network step x three faults, every file operation as a crash point and every number of writable bytes, each followed by a second run",
 "No stable test runs a download program; the failures need a server that breaks off at a chosen byte.",
 ["scripts/gsfc_got_tides.py", "scripts/aviso_fes_tides.py", "scripts/arcticdata_tides.py", "scripts/verify_box_tpxo.py", "pyTMD/utilities.py"],
 [("gsfc_got_tides", "extraction of members of the archive"), ("ftp_download", "transfer and extraction of AVISO files"), ("arcticdata_tides", "extraction of members of the bag"), ("verify_box_tpxo", "comparison of checksums")],
 state=[("local tree", "files below the chosen directory with their contents, times and permissions")])

prop("P33", "Superseded functions, classes and keywords behave as their replacements",
 "Every deprecated interface of the package gives, for the same arguments given by position or by name, the value of its replacement, or fails with the same kind of error: the correction functions and the selection of a correction by name in any letter case, the domain check, the time functions, the time scale class with all of its constructors and attributes, the Earth orientation functions (including the requests their update functions pass on), the astronomical phase angles and the ocean pole map reader. Every superseded keyword of the model readers acts as its new spelling, alone or mixed with new ones.",
 ["inputs", "configurations"],
 "all combinations up to two or three non-default values of the arguments of each interface; all subsets of old and new spellings of keywords",
 "The stable tests call almost none of the deprecated interfaces.",
 ["pyTMD/compute_tide_corrections.py", "pyTMD/check_points.py", "pyTMD/time.py", "pyTMD/eop.py", "pyTMD/astro.py", "pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py", "pyTMD/io/IERS.py"],
 [("compute_corrections", "pyTMD.compute_tide_corrections"), ("timescale", "pyTMD.time"), ("iers_mean_pole", "pyTMD.eop"), ("deprecated_keywords", "extract_constants of each format")])

prop("P34", "Model and data files that are cut short are rejected, never read as values",
 "If any file of a tide model, in any format, compressed or not, or any netCDF4, HDF5, GeoTIFF, parquet, ocean pole, definition or database file lacks bytes at its end, as after an interrupted copy, then reading it raises an error or gives exactly the values of the complete file; missing values are never invented, taken as zero or taken from elsewhere. Of text tables the rows before the cut are read as they are. Replacing the file by the complete one makes the next read succeed with the full values.",
 ["crash_points", "inputs"],
 "every format x variable x file x length of the file x reading route",
 "The stable tests read complete files only.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py", "pyTMD/io/IERS.py", "pyTMD/io/model.py", "pyTMD/spatial.py"],
 [("read_otis_elevation", "pyTMD.io.OTIS"), ("read_ascii_file", "pyTMD.io.GOT, pyTMD.io.FES"), ("read_netcdf_file", "pyTMD.io.ATLAS, GOT, FES"), ("from_*", "pyTMD.spatial")])

prop("P35", "The interactive map, its marker, text, label and menus stay consistent",
 "After any sequence of marker moves, text entries, mouse moves, zooms and pans of an interactive map, the text beside the map shows the location of the marker (longitude within half a revolution, eight decimals), text with a valid location moves the marker there, text without one leaves marker and map alone, any change of the zoom or centre brings the map back to the marker, and mouse moves change nothing but the label of the cursor, with longitudes within half a revolution. For every combination of options and projections exactly the chosen controls exist with the given centre, zoom and coordinate reference system, the projections transform coordinates as their EPSG definitions do, and the menus list every elevation model once, in order, with entries that can be used.",
 ["histories", "configurations", "inputs"],
 "all sequences of operations up to a depth, by canonical state; all options x projections; lattices of coordinates",
 "No stable test opens a map; the faults depend on the order of events between widgets.",
 ["pyTMD/tools.py"],
 [("leaflet", "pyTMD.tools.leaflet"), ("widgets", "pyTMD.tools.widgets"), ("projections", "pyTMD.tools.projections")],
 state=[("map state", "marker location, text, label, zoom and centre of the map")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
