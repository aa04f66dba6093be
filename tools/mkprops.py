#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "NetCDF library calls are serialised in every thread schedule",
  "The netCDF C library is not thread-safe, so whatever readers and writers are open and however many threads use them, at most one thread is ever executing a netCDF library call: each such call happens while one process-wide lock is held. That lock is always released again when the operation ends, normally or by an exception.",
  ["schedules", "programs"], "all thread interleavings of any client program using any set of readers/writers",
  "The stable tests are single-threaded python tests; a missing lock is only visible under particular interleavings.",
  ["src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_Utils.cc", "include/fimex/MutexLock.h"],
  [("global netCDF mutex and scoped lock/unlock", "src/io/netcdf/NetCDF_Utils.cc, include/fimex/MutexLock.h"), ("statement-level locking macro", "src/io/netcdf/NetCDF_CDMWriter.cc")])

prop("C02", "The library's locks can never deadlock",
  "No thread ever tries to acquire a (non-recursive) library lock that it already holds, and the locks of the different parts are never acquired in an order that can form a cycle between threads. This holds in every schedule and on every error path.",
  ["schedules", "fault_sequences"], "all interleavings and all paths including exceptional ones, including a process that has forked since opening its files",
  "Tests run one thread and never fork; a wrong lock order hangs only for particular interleavings.",
  ["src/io/netcdf", "src/io/grib/GribCDMReader.cc", "src/io/felt", "src/Units.cc", "src/TimeUnit.cc", "src/Log4cppLogger.cc", "include/fimex/MutexLock.h"],
  [("scoped locks and critical sections", "include/fimex/MutexLock.h")])

prop("C03", "Unit-library calls are serialised in every thread schedule",
  "The units library (udunits) is not thread-safe, so every call into it, from unit conversion, time-unit handling or anywhere else (only releasing objects that no other thread can reach is exempt), is executed under one process-wide lock, and the bulk value converters obtained from it are evaluated only while converters cannot be evaluated by another thread at the same time.",
  ["schedules", "programs"], "all interleavings of any client using units and time axes",
  "Single-threaded tests cannot observe unserialised use.",
  ["src/Units.cc", "src/TimeUnit.cc"],
  [("unit mutex", "src/Units.cc"), ("critical section around converter evaluation", "src/Units.cc")])

prop("C04", "A failing netCDF call is always reported, never treated as success",
  "Whenever a netCDF library call made while opening, reading, defining, writing, synchronising or reopening a file returns an error status, the enclosing operation fails with an exception carrying that failure; it never continues as if the call had succeeded, and a failure while writing any variable makes the whole write operation fail. The only calls whose failure may be tolerated are explicit existence/format probes and the final close in a destructor.",
  ["fault_sequences", "inputs"], "every netCDF call failing in every possible way, at every point",
  "Tests hardly make netCDF calls fail; the faults (I/O errors, corrupt files, missing ids) cannot be enumerated by tests.",
  ["src/io/netcdf"], [("status checker that throws", "src/io/netcdf/NetCDF_Utils.cc"), ("per-variable failure flag", "src/io/netcdf/NetCDF_CDMWriter.cc")])

prop("C05", "A failing GRIB library call is always reported, never treated as success",
  "Whenever the GRIB library (eccodes) reports an error while messages are indexed, decoded, encoded or written, the enclosing operation fails or the key is explicitly treated as absent with a default; a value that the failed call should have produced is never used.",
  ["fault_sequences", "inputs"], "every eccodes call failing in every possible way",
  "The stable tests contain no GRIB failure cases.",
  ["src/io/grib"], [("error check macro", "src/io/grib/GribUtils.cc")])

prop("C06", "No C++ exception crosses the C interface; failures are returned as failures",
  "Every function of the C interface is called from C or Fortran, so no C++ exception ever leaves one of them: any failure inside is turned into that function's documented failure result (an error code, NULL or a negative number), and an operation that failed never returns the success result. Callback functions handed to C libraries obey the same rule.",
  ["inputs", "fault_sequences"], "all arguments, file contents and failures of anything called from the C interface",
  "Tests call a few functions with good arguments; unwinding through C/Fortran frames terminates the process.",
  ["src/c_fimex.cc", "include/fimex/c_fimex.h", "src/C_CDMReader.cc"], [("catch clauses of each entry point", "src/c_fimex.cc")])

prop("C07", "No exception leaves a parallel region",
  "Code executed inside a parallel (OpenMP) loop or critical section never lets an exception propagate out of that region, since that terminates the process: every failure inside is caught within the region and reported after it.",
  ["inputs", "fault_sequences", "schedules"], "all inputs and failures in all parallel regions, for any number of threads",
  "Only manifests when the failing iteration runs in a team; existing tests contain no failing iterations.",
  ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/FillWriter.cc", "src/Null_CDMWriter.cc", "src/CDMInterpolator.cc", "src/CachedInterpolation.cc", "src/CDMVerticalInterpolator.cc"],
  [("try/catch inside the region", "each #pragma omp region")])

prop("C08", "Reading and interpolating in parallel is free of data races",
  "Any number of threads may ask the same reader or filter chain for data at the same time, as the writers do, and several loops inside the library run in parallel. Every member, static variable or cache that is modified while data is read is then accessed only under one common lock (mutex, critical section or one-time initialisation); it is not enough to look at it unlocked first. The iterations of a parallel loop modify only what they declare themselves, what is private to the thread, the elements selected by the loop variable, or what such a lock or an atomic operation protects. Looking something up for reading never inserts into a shared container. (Listing the coordinate systems of a reader, done once before reading, is excluded.)",
  ["schedules", "programs"], "all interleavings of concurrent slice reads of any reader chain, and of all iterations of the internal parallel loops",
  "Races need particular interleavings; tests run with tiny data and do not detect races.",
  ["src/CDMProcessor.cc", "src/CachedForwardInterpolation.cc", "src/CachedInterpolation.cc", "src/CDMInterpolator.cc", "src/CDMVerticalInterpolator.cc", "src/FillWriter.cc", "src/reproject.cc", "src/FileChunkReader.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/grib/GribCDMReader.cc", "src/io/felt"],
  [("mutex per file/handle/cache", "readers and filters"), ("variables declared inside the parallel loop, critical sections", "each #pragma omp region"), ("thread-local projection context", "src/reproject.cc")])

prop("C09", "Reading data never changes the data held by the source",
  "Data handed out by a reader or filter belongs to the caller: modifying it never changes what the same or any other reader returns later, so the result shares no array with the data of a variable in a data model or with anything the reader keeps (caches, precomputed fields). Nor does any reader, filter, converter or writer modify the data of a variable or attribute of a data model in place, or the data passed to it as an argument; copying values from one data object into another does not make the two share storage.",
  ["histories", "programs"], "all sequences of reads through all filter chains",
  "Aliasing between the returned array and the cached source only shows for data that lives in memory and matching data types, and only on a second read.",
  ["src/CDMReader.cc", "src/CDMProcessor.cc", "src/CDMQualityExtractor.cc", "src/CDMOverlay.cc", "src/CDMBorderSmoothing.cc", "src/CDMPressureConversions.cc", "src/verticalTransform", "src/DataImpl.h"],
  [("copy before modification (clone)", "filters"), ("typed accessors alias when the type matches", "src/DataImpl.h")])

prop("C10", "Every data type is handled alike by all type conversion tables",
  "For each element data type of the data model, creating data, slicing, converting, converting to and from its name, to and from the netCDF type, reading and writing with netCDF, and storing in and loading from the binary index all use that same element type: no type is missing, and no two tables disagree about which stored type belongs to which data type.",
  ["inputs", "configurations"], "all element types times all conversion tables",
  "Tests exercise mostly float, double, short and int; the unsigned and 64-bit types are hardly touched.",
  ["src/CDMDataType.cc", "src/Data.cc", "src/DataImpl.h", "src/io/netcdf/NetCDF_Utils.cc", "src/ProtobufCDM.cc", "include/fimex/CDMDataType.h"],
  [("switches over the data type and over the netCDF type", "NetCDF_Utils.cc, Data.cc, CDMDataType.cc, ProtobufCDM.cc")])

prop("C11", "The binary index round-trips: reader and writer agree on every field",
  "Everything that is written to a persistent index (the binary data-model index and the GRIB message index, in binary and XML form) is read back into the same attribute of the same entity: every stored field is restored, into the place it came from, with the same representation.",
  ["inputs", "histories"], "all data models and GRIB indexes written and later read back",
  "Round trips in tests use tiny models; a field exchanged or forgotten on one side appears only with models using it.",
  ["src/ProtobufCDM.cc", "src/io/grib"], [("field-by-field writer and reader", "ProtobufCDM.cc, GribFileMessage / GribIO protobuf code")])

prop("C12", "The Fortran interface and the C interface describe the same functions",
  "Every C function bound by the Fortran modules exists in the C interface and agrees with it in number, order, kind and passing mode of arguments and in result type, and every named constant that Fortran repeats from C has the same value. The high-level Fortran procedures hand their arguments on in the order the C function expects, with terminated strings, arrays of the element type C expects, buffer lengths that fit, and positions converted from one-based to zero-based; so any Fortran program passes and receives exactly what the C side means.",
  ["programs", "inputs"], "all Fortran programs using the interface",
  "Nothing checks an interface mismatch at link time; the tests exercise a handful of calls where garbage may go unnoticed.",
  ["modules/F90/fimex.f90", "modules/F90/fimex2d.F90", "include/fimex/c_fimex.h", "include/fimex/mifi_constants.h"],
  [("bind(C) interface blocks and enums", "modules/F90")])

prop("C13", "Method names, codes and implementations always correspond",
  "In the library, every documented horizontal interpolation method name, vertical interpolation method name and vertical axis type name (and every method name of the Python module) selects the code of that method; every code selects the implementation of that same method and is handed on unchanged, with undefined values propagated only by the forward_undef methods; and an unknown name or code is rejected with an error (or the code for 'unknown') rather than silently replaced by another method.",
  ["inputs", "configurations"], "all method names and codes at all places which accept them",
  "Tests use two or three methods; a crossed entry silently gives a different (plausible) result.",
  ["src/interpolation.c", "src/CachedInterpolation.cc", "src/CDMVerticalInterpolator.cc", "include/fimex/mifi_constants.h"],
  [("name table and dispatch switches", "src/interpolation.c")])

prop("C14", "Acquired resources are released exactly once on every path",
  "Every raw resource the library acquires (heap blocks from malloc or new, C file and directory handles, plugin libraries, GRIB handles, netCDF file ids, XML documents, contexts, readers and strings, unit, converter and projection objects) is released exactly once, with the function that belongs to it, on every path out of the operation that acquired it, including early error returns, failures inside constructors and exceptions, or is handed to exactly one owner that does so; it is not used afterwards.",
  ["fault_sequences", "inputs"], "all paths including all failures",
  "Leaks and double releases on error paths need failures that tests do not provoke.",
  ["src/interpolation.c", "src/reproject.cc", "src/io/grib", "src/io/netcdf", "src/Units.cc", "src/TimeUnit.cc", "src/XMLDoc.cc", "src/CDM_XMLConfigHelper.cc"],
  [("RAII wrappers and explicit frees", "throughout")])

prop("C15", "Input files are never modified by reading",
  "Opening a file for reading (with any reader, filter, configuration, C function or Python function, and any file type except an explicit read-write one ending in '+rw') and reading from it, before or after a fork, never opens any file writable and never creates, truncates, writes, renames or removes one; write access happens only through the writers and the explicit read-write mode.",
  ["programs", "histories", "configurations"], "all programs that only read, for all file types",
  "Tests run with private copies of input files and do not compare them afterwards.",
  ["src/io", "src/FileChunkReader.cc", "src/XMLInputFile.cc", "src/CDMFileReaderFactory.cc"],
  [("open modes", "src/io/netcdf/NetCDF_CDMReader.cc, src/io/netcdf/NetCDF_Utils.cc, src/FileChunkReader.cc, src/io/felt/FeltFile.cpp"), ("read-write file types", "src/io/netcdf/NetCDFIoFactory.cc")])

prop("C16", "A lookup that may fail is checked before its result is used",
  "Whenever the library looks something up that may be absent - an element of a map, set or list, the unlimited dimension, an axis or the coordinate system of a variable, an attribute fetched into a variable, a node of an XML document, the concrete type of an object (dynamic casts), or anything a C library function may answer with a null pointer - the absent case is handled before the result is used, so no data model, configuration or argument makes it dereference a null pointer or a past-the-end position or use an attribute that was not found.",
  ["inputs", "programs"], "all data models, configurations and arguments",
  "The absent cases need unusual models (no unlimited dimension, no time axis, wrong reader type).",
  ["src"], [("null/end checks after lookups", "throughout")])

prop("C17", "A part requested outside of a dimension is always rejected",
  "Whatever start and size a caller requests, including values close to the largest representable number: a slice builder (SliceBuilder) either stores a range that lies completely inside of the dimension or throws without having changed its state, where only dimensions that are unlimited and were explicitly opened for growth (the setUnlimited constructor argument) are exempt; cutting a slice out of in-memory data (Data::slice, createDataSlice, CDMReader::getDataSliceFromMemory at a position of the unlimited dimension) throws for a part that starts or ends outside of the data, copying between data (Data::setValues from another Data) throws for a start outside of the source or the target and copies only what exists in both, and neither ever touches memory outside of the data; and the index and range selections of the extractor (CDMExtractor::reduceDimension with a set of positions or with start and length, reduceDimensionStartEnd) accept only positions inside of the dimension and throw otherwise.",
  ["inputs"], "all start/size pairs and position sets for all dimension lengths",
  "Boundary and overflow values are not sampled by tests.",
  ["src/SliceBuilder.cc", "src/CDMExtractor.cc", "src/DataImpl.h", "src/Data.cc", "src/CDMReader.cc"],
  [("range checks before state update", "src/SliceBuilder.cc")])

prop("C18", "Array kernels stay inside their arrays",
  "For every combination of sizes, the numerical kernels of the C interpolation library (the mifi_ functions of interpolation.c and vertical_coordinate_transformations.c: pointwise and linear interpolation, filling, grid distances, vertical velocity, positions on an axis, vertical coordinates) and of reproject.cc (field and vector reprojection, and the cached vector reprojection that applies its matrices) read and write only inside the arrays they are given (whose lengths follow from the documented dimension arguments) and inside the arrays they allocate themselves.",
  ["inputs"], "all dimension arguments from 0 up (element counts below 2^31), and all positions including borders",
  "Tests use one or two grid sizes; an over-read of one element is silent.",
  ["src/interpolation.c", "src/reproject.cc", "src/vertical_coordinate_transformations.c", "src/CachedVectorReprojection.cc"],
  [("loop bounds and border tests", "kernels")])

prop("C19", "Interpolated values are numerically correct",
  "For every field and every target position the interpolated value equals the mathematical definition of the chosen method up to rounding.",
  ["inputs"], "all real-valued fields and positions",
  "Continuous input space.",
  ["src/interpolation.c", "src/CachedInterpolation.cc"], [("kernels", "src/interpolation.c")])

prop("C20", "Time and unit conversions round-trip",
  "Converting a time or value from one unit to another and back yields the original value up to rounding, for all representable values and calendars.",
  ["inputs"], "all values and units",
  "Continuous input space and behaviour of an external library.",
  ["src/Units.cc", "src/TimeUnit.cc"], [("udunits", "src/TimeUnit.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
