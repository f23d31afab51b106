T = "The 30 stable tests run a handful of fixed example files through the Python binding; "

prop("C01", "Converting stored data to another type or packing keeps the physical values",
     ["Converting an array between element types and between (scale, offset, fill value) packings yields for every element the value of the target packing that is closest to the same physical value (rounded to nearest for integer targets, and not changed by detours through smaller types).",
      "Elements equal to the source's fill value, and undefined numbers that an integer target cannot represent, become exactly the target's fill value; no other element does so unless its value coincides.",
      "The number of elements never changes."],
     ["inputs", "configurations"], "all pairs of numeric element types, all element values, scales, offsets and fill values",
     T + "type pairs x packings x values is far beyond the few conversions they perform.",
     ["include/fimex/Data.h", "src/DataImpl.h", "src/Data.cc", "src/CDMReader.cc", "include/fimex/Utils.h"],
     [("Data::convertDataType / asX views, getValue/setValue", "src/DataImpl.h, src/Data.cc"), ("ChangeMissingValue, ScaleValue, RoundAndClamp functors", "include/fimex/DataTypeChanger.h, src")])
prop("C02", "Slices and range copies of data arrays deliver exactly the requested elements",
     ["Cutting a start/size box out of a multi-dimensional array gives exactly the elements of that box in the same order, for every number of dimensions, and a box reaching outside the array is rejected instead of being read.",
      "Copying an element range of one array into a position of another changes exactly the addressed elements (converted to the target type), and a range outside either array is rejected without touching memory outside of it."],
     ["inputs"], "all shapes, start/size requests (including sizes near the integer limits) and element types",
     T + "they request boxes inside of the data only.",
     ["src/DataImpl.h", "src/Data.cc", "include/fimex/Data.h", "include/fimex/RecursiveSliceCopy.h"],
     [("DataImpl::slice, setValues", "src/DataImpl.h"), ("recursiveCopyMultiDimData", "include/fimex/RecursiveSliceCopy.h")])
prop("C06", "Interpolation between two fields follows its formula and treats undefined values",
     ["Interpolating between two fields at two positions (linear, linear with constant extrapolation, linear without extrapolation, weak extrapolation, nearest, logarithmic and log-log variants) gives for every element and target position the value defined by the method: exact at both end positions, on the straight line (in the method's coordinate) in between, and the method's rule outside of the interval.",
      "An undefined input gives an undefined output unless it has zero weight by the method's rule, and positions for which the method is undefined are reported as an error without delivering invented values."],
     ["inputs"], "all field values including undefined ones, all layer positions (also equal or descending) and target positions",
     T + "vertical and time interpolation are not tested at degenerate or outside positions.",
     ["src/interpolation.c", "include/fimex/interpolation.h"],
     [("mifi_get_values_linear_f/d, _linear_weak_extrapol_, _linear_const_extrapol_, _linear_no_extrapol_, _nearest_f, _log_f, _log_log_f", "src/interpolation.c")])
prop("C07", "Nearest, bilinear and bicubic interpolation at every position of a grid",
     ["At every fractional grid position, nearest neighbour delivers the closest cell, bilinear the area-weighted mean of the four surrounding cells (up to half a cell beyond the outermost cells: of the outermost cells only) and bicubic the cubic-convolution value, each layer independently; positions on a grid point reproduce its value.",
      "Positions outside of the grid (including undefined, infinite or huge ones) give undefined output, as do cells whose contributing neighbours are undefined, and no memory outside of the field is read.",
      "The textual name of an interpolation method selects exactly that method."],
     ["inputs"], "all grid sizes, cell values (including undefined), and positions",
     T + "positions on borders, corners and outside of the grid are not covered.",
     ["src/interpolation.c", "include/fimex/interpolation.h"],
     [("mifi_get_values_f, mifi_get_values_bilinear_f, mifi_get_values_bicubic_f", "src/interpolation.c"), ("mifi_string_to_interpolation_method", "src/interpolation.c")])
prop("C08", "Coordinate values map to the right fractional position on an axis",
     ["A coordinate value on a strictly monotonic axis (ascending or descending) maps to the fractional index at which linear interpolation of the axis gives back that value, exactly k at the k-th axis value; values outside map to linearly extrapolated positions outside of the index range, and undefined or infinite values to a position far outside of the grid.",
      "On a longitude axis (in degrees -180..180 or 0..360) a longitude and its equivalent one circle further map to the same position, also across the seam of a circular axis.",
      "Searching a value in a sorted array finds its index, or the insertion position when absent."],
     ["inputs"], "all monotonic axes, all values including undefined and infinite ones",
     T + "only a few ascending axes with inside points are used.",
     ["src/interpolation.c"], [("mifi_points2position, mifi_bsearchDouble, find/extrapolate", "src/interpolation.c")])
prop("C10", "Filling of undefined cells keeps defined cells and stays inside the field",
     ["Filling the undefined cells of a field (relaxation, creep fill, creep fill with a default value) never changes a defined cell, gives every undefined cell a defined value unless the whole field is undefined, and reports exactly the number of undefined cells.",
      "Creep-filled values stay within the range of the given values and the default value; an isolated undefined cell converges to the mean of its neighbours under relaxation.",
      "No memory outside of the field is accessed for any field size, including single rows and columns."],
     ["inputs"], "all field sizes, all subsets of undefined cells, all values and fill parameters",
     T + "they fill one example field and compare nothing cell by cell.",
     ["src/interpolation.c", "src/CDMInterpolator.cc"], [("mifi_fill2d_f, mifi_creepfill2d_f, mifi_creepfillval2d_f", "src/interpolation.c")])
prop("C11", "Fill values become undefined numbers on reading and come back unchanged",
     ["Replacing a fill value by the undefined number changes exactly the elements equal to the fill value, and the reverse replaces exactly the undefined ones by the fill value, so that the round trip is the identity on data not containing undefined numbers.",
      "All other elements keep their bits and a fill value that is itself undefined changes nothing."],
     ["inputs"], "all element values, fill values and array lengths",
     T + "fill values in interpolated data are not compared element by element.",
     ["src/interpolation.c"], [("mifi_bad2nanf, mifi_nanf2bad", "src/interpolation.c")])
prop("C03", "Readers deliver exactly the requested part of a variable, also scaled",
     ["A box or an unlimited-dimension slice requested from a reader contains exactly the elements of that part of the variable, no matter whether the data is held in memory, read box-wise or assembled from unlimited slices; slices the source does not have appear as fill values; requests outside of the variable are rejected.",
      "Scaled data equals scale*value+offset, converted to the requested unit, as double with undefined numbers for fill values, through every way of reading; writing the scaled data back through the same packing and unit gives the original stored values.",
      "A slice request remembers exactly the last accepted start and size of each dimension, and which dimensions have been set."],
     ["inputs", "histories"], "all variables, boxes, packings, units and missing slices",
     T + "they read complete variables or single slices of complete files.",
     ["src/CDMReader.cc", "src/CDMReaderWriter.cc", "src/SliceBuilder.cc", "src/CDMReaderUtils.cc", "src/Data.cc"],
     [("CDMReader::getDataSlice / getData / getScaledData*InUnit", "src/CDMReader.cc"), ("SliceBuilder", "src/SliceBuilder.cc"), ("CDMReaderWriter::putScaledDataSlice*", "src/CDMReaderWriter.cc")])
prop("C05", "Extraction keeps exactly the selected part of the data set",
     ["After reducing dimensions to sets or ranges of positions, every variable, slice or box contains exactly the elements at the selected positions in the original order, the coordinate variables shrink with them, and positions or ranges outside of the dimension are rejected.",
      "Restricting a vertical or time axis to a range (in any convertible unit) keeps exactly the axis values inside of the range, for ascending and descending axes; a latitude/longitude box keeps exactly the points inside of it, including boxes across the date line.",
      "Selecting or removing variables leaves exactly the selected ones (and on request the variables needed to interpret them), and never changes the source."],
     ["inputs", "histories"], "all selections, ranges, boxes, variable shapes and requests of the reduced data",
     T + "they reduce one dimension of one file by a range.",
     ["src/CDMExtractor.cc"],
     [("CDMExtractor::reduceDimension, getDataSlice_, joinSlices, reduceAxes, reduceLatLonBoundingBox, selectVariables", "src/CDMExtractor.cc")])
prop("C12", "Vertical coordinate and humidity formulas",
     ["The vertical coordinate transformations (ln-pressure, sigma, hybrid sigma, hybrid height, ocean s and sigma, barometric) give for each level the value of their published formula, and inverse transformations undo each other.",
      "Relative and specific humidity, dew point, virtual temperature, layer thickness, omega and vertical wind conversions agree with their formulas and are inverse to each other where both directions exist.",
      "Grid distances and computed vertical velocity follow their finite-difference definition at every grid point, including borders, and never read outside of the fields."],
     ["inputs"], "all numbers of levels, level parameters, surface values and fields",
     T + "none of them evaluates these formulas.",
     ["src/vertical_coordinate_transformations.c", "src/interpolation.c"],
     [("mifi_atmosphere_*, mifi_ocean_*, mifi_barometric_*, mifi_*_humidity*, mifi_omega_*", "src/vertical_coordinate_transformations.c"), ("mifi_griddistance, mifi_compute_vertical_velocity", "src/interpolation.c")])
prop("C14", "Interpolation in time delivers the values at exactly the requested times",
     ["After changing the time axis, the axis consists of exactly the requested times in the requested unit, in the requested order, and every slice of a time-dependent variable is the linear interpolation between the two neighbouring original times, equal to the original slice at an original time, undefined further than one interval outside of the original times; fill values and missing slices never enter as numbers.",
      "Without a changed time axis, and for variables without time, data is forwarded unchanged; the source is never changed."],
     ["inputs", "histories"], "all original times, requested times, units, values and missing slices",
     T + "they interpolate one file to a few ascending times and compare few values.",
     ["src/CDMTimeInterpolator.cc", "src/TimeSpec.cc", "src/interpolation.c"],
     [("CDMTimeInterpolator::changeTimeAxis, getDataSlice", "src/CDMTimeInterpolator.cc"), ("mifi_get_values_linear_weak_extrapol_f", "src/interpolation.c")])
prop("C20", "Times, time units and time specifications convert without loss",
     ["Times compare as their calendar fields do, conversion to seconds since 1970 and back is the identity and follows the Gregorian calendar for every second, and the text form is read back as the same time.",
      "Encoding a time in a time unit and decoding it again gives the same time to the millisecond, with all calendar fields in range.",
      "A time specification (absolute or relative list, dots, x+N and x-N) expands to exactly the described times: regular steps, both ends included, nothing before the start of the original axis for relative time 0."],
     ["inputs"], "all representable times, units and specifications",
     T + "they convert a handful of times and specifications.",
     ["src/FimexTime.cc", "src/TimeUnit.cc", "src/TimeSpec.cc", "src/TimeUtils.cc", "include/fimex/TokenizeDotted.h"],
     [("FimexTime", "src/FimexTime.cc"), ("TimeUnit", "src/TimeUnit.cc"), ("TimeSpec", "src/TimeSpec.cc"), ("tokenizeDotted", "include/fimex/TokenizeDotted.h")])
prop("C09", "Horizontal interpolation delivers the right source values for every new cell",
     ["Interpolating a field to new positions gives at every new cell and in every layer the value of the chosen method (nearest, bilinear, bicubic) at that cell's position in the source, undefined outside; forward methods (sum, mean, median, min, max and their undef variants) combine exactly the source cells falling into each new cell, per layer.",
      "In an interpolated data set every horizontal variable has the new axes, any requested part (slice or box, also of data held in memory) equals that part of the complete interpolated variable, fill values behave as undefined, variables without horizontal axes are unchanged, and vector components are rotated per cell without changing undefined ones.",
      "No memory outside of the fields is accessed."],
     ["inputs", "histories"], "all source fields, positions, layers, methods and requested parts",
     T + "they interpolate a few files with one layer and look at few values.",
     ["src/CachedInterpolation.cc", "src/CachedForwardInterpolation.cc", "src/CDMInterpolator.cc", "src/CachedVectorReprojection.cc", "src/reproject.cc"],
     [("CachedInterpolation::interpolateValues, getInputDataSlice, getOutputDataSlice", "src/CachedInterpolation.cc"), ("CachedForwardInterpolation::interpolateValues", "src/CachedForwardInterpolation.cc"), ("CDMInterpolator::getDataSlice, changeProjection", "src/CDMInterpolator.cc"), ("CachedVectorReprojection::reprojectValues", "src/CachedVectorReprojection.cc")])
prop("C13", "Vertical interpolation delivers the values at the requested levels",
     ["After interpolating to fixed levels, to another vertical axis or to the levels of a template variable, every value of every variable with levels is the value of the chosen method (linear with its extrapolation rules, nearest) between the levels of that same horizontal point and time, with the level heights computed from the file's vertical coordinate (pressure, height, altitude, depth, sigma, hybrid, ocean s) and its surface fields at that point and time; ascending or descending, in every dimension order.",
      "Fill values and levels that are not valid give undefined values, results stay within the variable's valid range, variables without levels are unchanged and the source is never changed.",
      "The search for neighbouring levels returns distinct levels enclosing the value, or the closest ones outside."],
     ["inputs"], "all level tables, surface fields, data, new levels and methods",
     T + "they interpolate one or two files and look at few points.",
     ["src/CDMVerticalInterpolator.cc", "include/fimex/FindNeighborElements.h", "src/coordSys/verticalTransform/VerticalTransformationUtils.cc", "src/coordSys/verticalTransform"],
     [("CDMVerticalInterpolator::getLevelDataSlice, interpolateToFixed, interpolateToAxis, interpolateByTemplateVariable", "src/CDMVerticalInterpolator.cc"), ("ToVLevelConverter implementations", "src/coordSys/verticalTransform"), ("find_closest_neighbor_distinct_elements", "include/fimex/FindNeighborElements.h")])
prop("C15", "Aggregated sources read as one data set without loss or mixing",
     ["Joining sources along their unlimited dimension (joinExisting) or a new one (joinNew) gives a dimension of the summed length, whose slices and boxes are exactly those of the source they come from, in the order the sources were added; a source without the variable, or with another shape, contributes fill values of the right size.",
      "Variables that are not joined, and all variables of a union, come complete from the first source having them; variables not fitting the dimensions are left out; coordinate values given for the sources become the values of the joined dimension.",
      "The result does not depend on whether sources hold data in memory, and sources are never changed."],
     ["inputs", "histories"], "all numbers of sources, lengths, missing variables, data and requested parts",
     T + "they aggregate a fixed set of files.",
     ["src/AggregationReader.cc"],
     [("AggregationReader::addReader, initAggregation, getDataSlice", "src/AggregationReader.cc")])
prop("C16", "Merging and overlaying datasets takes each value from the right source",
     ["Smoothing an inner grid into an outer one gives the outer values outside of the inner grid and within the border, the inner values beyond the transition, and in between the linear transition by distance to the edge; an overlay gives the top value wherever it is defined and the base value elsewhere.",
      "Undefined values of one source are replaced by the other one or stay undefined, and never enter as numbers; packing, units and axis units of both sources are honoured; slices missing in one source are treated as undefined.",
      "Variables without horizontal position, or present in only one source, are unchanged; complete, slice and box requests agree; neither source is changed."],
     ["inputs", "histories"], "all values, undefined values, grids inside of each other, packings, units and missing slices",
     T + "they merge two fixed files and look at few values.",
     ["src/CDMBorderSmoothing.cc", "src/CDMBorderSmoothing_Linear.cc", "src/CDMMerger.cc", "src/CDMMergeUtils.cc", "src/CDMOverlay.cc"],
     [("CDMBorderSmoothing::getDataSlice", "src/CDMBorderSmoothing.cc"), ("CDMBorderSmoothing_Linear", "src/CDMBorderSmoothing_Linear.cc"), ("CDMOverlay::getDataSlice", "src/CDMOverlay.cc"), ("CDMMerger", "src/CDMMerger.cc")])
prop("C17", "Accumulating and deaccumulating over time are exact and inverse",
     ["The accumulated variable at each time is the sum of the original values up to that time, the deaccumulated one the difference to the previous time (the first unchanged); doing one after the other restores the original.",
      "The result of each slice is independent of the order, repetition and extent of earlier reads; undefined or missing values make dependent results undefined instead of entering as numbers; packing offsets are counted correctly; the source is never changed."],
     ["inputs", "histories"], "all values, undefined values, types, packings and orders of reading",
     T + "they read one variable of one file in time order.",
     ["src/CDMProcessor.cc"],
     [("CDMProcessor::accumulate, deAccumulate, getDataSlice", "src/CDMProcessor.cc")])
prop("C18", "Quality extraction keeps exactly the values with accepted status",
     ["Each data value is kept where its own status value is accepted by the configuration (listed values, all, min:, max:, highest, lowest) and becomes undefined (or the configured fill value) elsewhere, for each time and layer separately; status values may themselves have a status.",
      "Automatic configuration follows the flag attributes of the status variables, and an explicit configuration replaces it.",
      "The result does not depend on repeated or partial reading or on whether data is held in memory, and the source is never changed."],
     ["inputs", "histories"], "all status values, data, layers, times and configurations",
     T + "they read one file with one configuration.",
     ["src/CDMQualityExtractor.cc"],
     [("CDMQualityExtractor::getDataSlice, CDMQualityExtractor", "src/CDMQualityExtractor.cc")])
prop("C19", "Changes of the dataset description do exactly what they say",
     ["After any sequence of adding, replacing, renaming and removing dimensions, variables and attributes, the data set contains exactly what the sequence describes: nothing else is lost, duplicated or reordered; renaming keeps data and attributes and carries over to all uses of the name; refused changes leave everything as it was.",
      "Copies are independent of each other."],
     ["histories"], "all histories of changes and names",
     T + "they perform a few changes of one data set.",
     ["src/CDM.cc", "src/CDMAttribute.cc", "src/CDMVariable.cc", "src/CDMDimension.cc"],
     [("CDM::addDimension, addVariable, addAttribute, addOrReplaceAttribute, removeVariable, removeAttribute, renameVariable, renameDimension", "src/CDM.cc")])
prop("C25", "NcML changes names, types, attributes and values as written",
     ["A data set read through an NcML description differs from the original in exactly the described way: renamed dimensions, variables and attributes keep their contents, changed types convert all values (also packed ones) without changing what fits, added values and attributes are those written, removed ones are gone, changed lengths and shapes deliver the corresponding part of the data.",
      "Everything not mentioned is unchanged, whether the original data is held in memory or read, completely, by slice or by box."],
     ["inputs"], "all values and combinations of changes",
     T + "they read one NcML file with one of each change.",
     ["src/NcmlCDMReader.cc"],
     [("NcmlCDMReader::initRemove, initRenameVariables, initVariableTypeChange, initVariableShapeChange, initVariableDataChange, initAttributeNameChange, getDataSlice", "src/NcmlCDMReader.cc")],
     note="The attribute `_Unsigned` in NcML is not honoured by the reader (its XPath is absolute, so it never matches below a variable). It is outside of the bounds: an existing test file depends on the present behaviour.")
prop("C27", "Pressure-dependent conversions use the pressure of the very same cell",
     ["Temperature from potential temperature, relative from specific humidity, vertical wind from omega and the added pressure field have at every point, level and time the value of their formula with the pressure (and temperature) of that same point, level and time, for every vertical coordinate with a pressure and every order of dimensions.",
      "Packing and units of the inputs are honoured, undefined inputs give undefined results, relative humidity stays within 0 to 100%, derived variables keep the shape of their original, other variables and the source are unchanged; complete, slice and box requests agree."],
     ["inputs"], "all fields, undefined values, packings, units and vertical coordinates",
     T + "none of them runs these conversions.",
     ["src/CDMPressureConversions.cc", "src/vertical_coordinate_transformations.c", "src/coordSys/verticalTransform"],
     [("CDMPressureConversions", "src/CDMPressureConversions.cc"), ("mifi_specific_to_relative_humidity, mifi_omega_to_vertical_wind_f", "src/vertical_coordinate_transformations.c")])
prop("C24", "Filling puts each value at its matching place and changes nothing else",
     ["After filling an existing data set from another one, every value of the input stands in the output at the position with the same coordinate values (in whatever order and unit both axes are given), converted to the output's packing, fill value and unit; unlimited axes are extended by values not yet there; configured translations put slices where they say.",
      "Everything else in the output is unchanged: variables missing in either one, of another shape, or with coordinates not in the output; such cases are reported."],
     ["inputs"], "all axes, data, undefined values, packings and units of both data sets",
     T + "they fill one file from one other file.",
     ["src/FillWriter.cc"],
     [("FillWriter", "src/FillWriter.cc"), ("CDMReaderWriter::putScaledDataSlice", "src/CDMReaderWriter.cc")])
prop("C30", "NetCDF files hold exactly the dataset written, or an error is reported",
     ["Writing a data set to a netcdf file and reading it back gives the same dimensions, variables, attributes and values, in every file format and for every type the format has (others converted without change of what fits); limited and unlimited dimensions, complete, slice and box requests, and replaced values agree.",
      "The configured changes of the writer (names, types, packing, units, removed and added attributes, compression) are exactly those configured.",
      "Whenever a call of the netcdf library fails, the operation reports an error or its result is complete and right: no error is swallowed, and the kind of a file is recognised by its first bytes whatever follows."],
     ["inputs", "faults"], "all values, types, shapes, formats, requested parts, and each failing library call",
     T + "they write and read back few files, and no library call ever fails in them.",
     ["src/io/netcdf"],
     [("NetCDF_CDMReader", "src/io/netcdf/NetCDF_CDMReader.cc"), ("NetCDF_CDMWriter", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("ncGetValues, ncPutValues, Nc", "src/io/netcdf/NetCDF_Utils.cc"), ("NetCDFIoFactory", "src/io/netcdf/NetCDFIoFactory.cc")])
prop("C31", "Reading and writing in parallel gives the same as one after the other",
     ["Any reader chain read by several threads at once, and the parallel loops of writers, filling and interpolation, deliver the same values as when executed one after the other: no two threads use the same memory, one of them writing, without a common lock.",
      "The netcdf library is only called while its lock is held; no thread waits for a lock it holds, releases one it does not hold, or keeps one after success or failure.",
      "Failures of reading or of the library within parallel loops are reported as errors instead of ending the program; after a fork the child opens netcdf files anew, before any of its threads reads."],
     ["schedules", "faults", "inputs"], "all orders in which threads may execute, failing reads and library calls",
     T + "a test sees only the one order of threads that happens.",
     ["src", "include/fimex/MutexLock.h", "src/io/netcdf"],
     [("CachedInterpolation::interpolateValues", "src/CachedInterpolation.cc"), ("NetCDF_CDMWriter::writeData", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("NetCDF_CDMReader::getDataSlice, Nc::reopen_if_forked", "src/io/netcdf"), ("FillWriter", "src/FillWriter.cc"), ("CDMVerticalInterpolator::getLevelDataSlice", "src/CDMVerticalInterpolator.cc"), ("Units convert", "src/Units.cc"), ("getLoggerClass", "src/Logger.cc")])
prop("C21", "Lists, numbers and axis specifications in text are read completely or refused",
     ["Splitting, trimming, comparing, replacing and escaping texts keeps every character at its place for every text and delimiter; a text is read as a number only when all of it is one in the type asked for, with that value, and written numbers read back.",
      "Dotted lists continue the step of the two values before them up to and including the value after them; relative axis specifications place 0 and x on multiples of the step within one step of the data's ends, on both sides of zero, with every decimal of the offsets; anything else is refused."],
     ["inputs"], "all texts, delimiters, numbers, lists and data extents",
     T + "they read a few well-formed texts.",
     ["src/StringUtils.cc", "include/fimex/StringUtils.h", "include/fimex/String2Type.h", "src/Type2String.cc", "include/fimex/TokenizeDotted.h", "src/SpatialAxisSpec.cc"],
     [("tokenize, split_any, trim, starts_with, ends_with, regex_escape", "src/StringUtils.cc"), ("string2type, type2string", "include/fimex/String2Type.h, include/fimex/Type2String.h"), ("tokenizeDotted", "include/fimex/TokenizeDotted.h"), ("SpatialAxisSpec::getAxisSteps", "src/SpatialAxisSpec.cc")])
prop("C23", "Loops over arrays of different shape combine exactly the matching elements",
     ["Looping over several arrays together visits every combination of the indices of all their dimensions exactly once, and at each step gives for every array the element with these indices, whatever the order of its dimensions and whichever of them it lacks; shared inner parts are contiguous in all arrays.",
      "Indexed access gives the element at the named position, and iterators with a stride visit exactly every n-th element."],
     ["inputs"], "all shapes, orders of dimensions, lengths, positions and values",
     T + "they loop over one pair of arrays.",
     ["src/ArrayLoop.cc", "include/fimex/ArrayLoop.h", "src/DataIndex.cc", "src/IndexedData.cc", "src/leap_iterator.h"],
     [("ArrayGroup::minimizeShared, Loop::next", "src/ArrayLoop.cc"), ("DataIndex::getPos", "src/DataIndex.cc"), ("IndexedData::getDouble", "src/IndexedData.cc"), ("leap_iterator", "src/leap_iterator.h")])
prop("C28", "Axes, systems, levels and vectors are recognised as the CF attributes say",
     ["Every dimension gets the kind of axis its attributes (standard name, units, positive, axis) describe, and no other; every variable gets the coordinate system made of its dimensions and auxiliary coordinates, with its grid mapping; systems are shared only by variables with the same axes.",
      "Vertical coordinates use the terms named in formula_terms, giving each level its pressure; they are reported as incomplete or missing exactly when a needed term is missing or belongs to other dimensions.",
      "Selections by kind of axis select along the dimension of that axis and refuse positions outside; the two components of vectors find each other; WRF files have the times and grid positions written in them."],
     ["inputs"], "all combinations of attributes, dimensions, auxiliary coordinates, terms, positions and pressures",
     T + "they list the coordinate systems of a few files.",
     ["src/coordSys/CF1_xCoordSysBuilder.cc", "src/coordSys/CoordinateSystem.cc", "src/coordSys/WRFCoordSysBuilder.cc", "src/CoordinateSystemSliceBuilder.cc", "src/coordSys/verticalTransform"],
     [("getAxisTypeCF1_x, CF1_xCoordSysBuilder::listCoordinateSystems, enhanceVectorProperties", "src/coordSys/CF1_xCoordSysBuilder.cc"), ("findBestHorizontalCoordinateSystems, findCompleteCoordinateSystemFor", "src/coordSys/CoordinateSystem.cc"), ("CoordinateSystemSliceBuilder", "src/CoordinateSystemSliceBuilder.cc"), ("wrfListCoordinateSystems", "src/coordSys/WRFCoordSysBuilder.cc")])
prop("C32", "A projection keeps all its parameters between CF attributes and proj texts",
     ["A projection read from CF attributes gives a proj text with every parameter (origin, parallels, rotation, scale, false easting and northing, earth figure, datum shift) at its value, and one read from a proj text gives CF attributes with the same parameters and values; going there and back changes nothing.",
      "Two projections are equal exactly when their parameters are; replacing the earth figure changes nothing else; parameters that cannot be expressed are kept as text instead of being dropped."],
     ["inputs"], "all projections and combinations of parameters and values",
     T + "they convert one example of some projections.",
     ["src/coordSys", "include/fimex/CDMNamedEntity.h"],
     [("Projection::create, createByProj4, replaceProj4Earthfigure, addParameterToProj4...", "src/coordSys/Projection.cc, src/coordSys/ProjectionImpl.cc"), ("getProj4ProjectionPart of each projection", "src/coordSys/*Projection.cc"), ("CDMNameCompare", "include/fimex/CDMNamedEntity.h")])
prop("C29", "Vectors, directions and derived fields are right at every grid point",
     ["Rotating the two components of a vector to or from latitude/longitude gives at every point, level and time the components of the same vector along the geographic directions (or along the grid), whatever the projection, the direction and units of the axes and the packing of the two components; a point with an undefined component is undefined and no other point changes. Directions in degree are turned by the same angle and stay within 0..360.",
      "Rotations in the two directions can be used on different variables of one dataset; names, types and vector properties of the result say what was done, and variables not named are unchanged.",
      "An added geopotential height is at every level the height by the hypsometric equation from the surface geopotential of that point with the temperatures, humidities and pressures of that column and time, for every range of levels requested and both orders of levels.",
      "An added vertical velocity is computed from the wind, temperature, surface pressure and surface height of that time in the right units."],
     ["inputs"], "all component values, directions, temperatures, grids and packings",
     T + "they compare single points of one or two files on one grid.",
     ["src/CDMProcessor.cc", "src/CachedVectorReprojection.cc", "src/reproject.cc", "src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc"],
     [("CDMProcessor::rotateVectorToLatLon, rotateDirectionToLatLon, getDataSlice, addVerticalVelocity, addGeopotentialHeight", "src/CDMProcessor.cc"), ("get_vector_reproject_matrix*, vector_reproject_*_by_matrix_f", "src/reproject.cc"), ("PressureIntegrationToAltitudeConverter::getDataSlice", "src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc")])
prop("C26", "The C interface gives the same data and descriptions as the C++ readers",
     ["Through the C interface every variable, dimension, coordinate system and slice is described and read as by the reader behind it: the same names, types, lengths, axes, positions and values, in the requested unit, for every box requested by a slice builder and every slice.",
      "Values given by a callback replace or change exactly the data of the named variable and never the data of the source; values written arrive at the requested box in the stored packing and unit.",
      "Errors (unknown names, positions outside, buffers that are too short, failing reads) are reported by return values as documented and never leave as exceptions; no buffer is written behind its end."],
     ["inputs", "faults"], "all boxes, values, packings, units, names, buffer lengths and failing reads",
     T + "the C interface is not called by any of them.",
     ["src/c_fimex.cc", "include/fimex/c_fimex.h", "src/C_CDMReader.cc"],
     [("mifi_* functions, string_cpy", "src/c_fimex.cc"), ("C_CDMReader", "src/C_CDMReader.cc")])
prop("C33", "The fimex program applies exactly the steps its options ask for, in order",
     ["The program reads the input, applies the configured steps in the documented order (process, quality, time and vertical interpolation, extraction, ...) with the parameters given, and writes the result once to the configured output; each option changes only what its description says, and steps without options change nothing.",
      "Options given in the configuration file, by name or by position mean the same; incomplete or contradicting options are refused with an error; printing options print the state after their step."],
     ["inputs"], "all options, values at the limits of their range, and combinations of steps",
     T + "the program itself is not run by them.",
     ["src/binSrc/fimex.cc"],
     [("main, getCDMFileReader, getCDMProcessor, getCDMExtractor, getCDMInterpolator, getCDMTimeInterpolator, getCDMVerticalInterpolator, getCDMMerger, fillWriteCDM, ...", "src/binSrc/fimex.cc")])
prop("C34", "A dataset written as NcML reads back as the same dataset",
     ["Writing a dataset as NcML and reading the text gives the same dimensions (length, unlimited), variables (type, shape), attributes (type, number of values, every digit and character) and, when written with data, the same values.",
      "This holds for every numeric type signed and unsigned over its whole range, for not-a-number, and for texts with any characters that XML can hold."],
     ["inputs"], "all types, shapes, values, attributes and texts",
     T + "they read a few NcML files and never read what was written.",
     ["src/NcmlCDMWriter.cc", "src/NcmlCDMReader.cc", "src/Type2String.cc"],
     [("NcmlCDMWriter", "src/NcmlCDMWriter.cc"), ("NcmlCDMReader::initAddReadAttribute, initVariableValues...", "src/NcmlCDMReader.cc"), ("type2string", "src/Type2String.cc")])
prop("C36", "GRIB files read as the dataset their messages describe",
     ["A set of GRIB messages (edition 1 or 2, one or several files, any order) is read as variables with exactly the times, levels and ensemble members that occur; every requested box has at each position the values of the message of that parameter, time, level and member, and the fill value where there is no message or the message has none. Values are in the configured type, packing and unit.",
      "The grid (type, projection, shape of the earth, first point, increments, scanning direction) gives axes on which every value is at its geographic position; times are the reference time plus the step in its unit.",
      "A configured parameter takes exactly the messages with all of its keys; an index file gives the same dataset as the files themselves; damaged files are refused or read without the damaged part, never with other values."],
     ["inputs", "faults"], "all sets and orders of messages, missing messages and values, boxes, steps, grids and selections",
     T + "they look at the shape of a few files of one centre.",
     ["src/io/grib/GribCDMReader.cc", "src/io/grib/GribCDMIndexer.cc", "src/io/grib/GribFileIndex.cc", "src/io/grib/GribReaderConfig.cc", "src/io/grib/GribUtils.cc"],
     [("GribCDMReader::getDataSlice, initSpatial, initAddTimeDimension, initLevels...", "src/io/grib/GribCDMReader.cc"), ("GribCDMIndexer", "src/io/grib/GribCDMIndexer.cc"), ("GribFileMessage, getGrid*, readGribData", "src/io/grib/GribFileIndex.cc"), ("GribReaderConfig", "src/io/grib/GribReaderConfig.cc")])
prop("C40", "GRIB files written by fimex decode to the dataset they were written from",
     ["Every value, time, level and grid position of the written dataset is found in the decoded messages."],
     ["inputs"], "all datasets that can be expressed as GRIB",
     T + "they write a few fields.",
     ["src/io/grib/GribApiCDMWriter.cc", "src/io/grib/GribApiCDMWriter_Impl.cc"],
     [("GribApiCDMWriter_Impl1/Impl2", "src/io/grib/GribApiCDMWriter_ImplAbstract.cc")],
     na="what a message contains after a sequence of grib_set calls is decided by the templates and concepts of ecCodes, a binary library with its own interpreted definition files that cannot be encoded here; a stand-in would only check itself.")
prop("C41", "felt files are read as the fields they contain",
     ["Every field of a felt file is found at its time, level and parameter with the values and positions stored."],
     ["inputs"], "all felt files",
     T + "the felt reader is only opened on one file.",
     ["src/io/felt"],
     [("FeltCDMReader2, Felt_File2", "src/io/felt")],
     na="the reader works on memory-mapped binary files through boost date, interprocess and multi-index libraries and large tables of parameters and grids; no description of the format is available here from which an independent oracle could be written.")
prop("C35", "Files are found, recognised and joined as their names and content say",
     ["A pattern with wildcards finds exactly the files it matches, in every directory and in the order of their names; an NcML scan takes exactly the files with the suffix or regular expression, with or without subdirectories, and joins the readable ones in that order under different names; a single location and the first of several aggregations are used.",
      "A file is opened by the format that answers best to the given type, else to its first bytes, else to its name, and refused when there is none; ranges of a file are read completely or refused.",
      "The forecast reference time is the only one the dataset gives, in its packing and unit; shapes compare equal exactly when they have the same lengths apart from lengths of 1; generated names are never in use."],
     ["inputs", "faults"], "all patterns, trees, formats, ranges, reference times and shapes",
     T + "they name single files of known type.",
     ["src/FileUtils.cc", "src/NcmlAggregationReader.cc", "src/CDMFileReaderFactory.cc", "src/FileChunkReader.cc", "src/CDMReaderUtils.cc"],
     [("scanFiles, globFiles", "src/FileUtils.cc"), ("NcmlAggregationReader", "src/NcmlAggregationReader.cc"), ("findFactory", "src/CDMFileReaderFactory.cc"), ("FileChunkReader::read", "src/FileChunkReader.cc"), ("getUniqueForecastReferenceTimeFT, compareCDMVarShapes", "src/CDMReaderUtils.cc")])
