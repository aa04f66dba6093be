From ae04397315ec5eae3377fb4eba611e8e7ae30aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:45 +0000
Subject: [PATCH 01/40] fix: do not re-acquire the netCDF mutex when reopening
 a file after fork

NetCDF_CDMReader::getDataSlice(varName, unLimDimPos) called reopen_if_forked() while
holding the (non-recursive) netCDF mutex, which reopen_if_forked() acquires itself: the
first read in a forked process never returned. Also check the pid under the mutex, so that
two threads cannot both reopen.
---
 src/io/netcdf/NetCDF_CDMReader.cc |  3 ++-
 src/io/netcdf/NetCDF_Utils.cc     | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..26f9431 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -137,8 +137,9 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
         return getDataSliceFromMemory(var, unLimDimPos);
     }
 
-    OmpScopedLock lock(Nc::getMutex());
     ncFile->reopen_if_forked();
+
+    OmpScopedLock lock(Nc::getMutex());
     int varid;
     ncCheck(nc_inq_varid(ncFile->ncId, var.getName().c_str(), &varid));
     nc_type dtype;
diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fe182e..5fcde8a 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -106,16 +106,20 @@ Nc::~Nc()
 
 void Nc::reopen_if_forked()
 {
-    pid_t this_pid = getpid();
-    if (pid != this_pid) {
-        pid = this_pid;
-        LOG4FIMEX(logger, Logger::DEBUG, "reopening file " << filename << " after fork to " << pid << " '" << ncId << "' ");
-
+    const pid_t this_pid = getpid();
+    bool reopened = false;
+    {
         OmpScopedLock lock(ncMutex);
-        // reopen file so file descriptions (e.g. offset) are not shared
-        ncCheck(nc_close(ncId), "closing parent filehandle");
-        ncCheck(nc_open(filename.c_str(), NC_NOWRITE, &ncId), "re-opening '" + filename + "' after fork");
+        if (pid != this_pid) {
+            pid = this_pid;
+            // reopen file so file descriptions (e.g. offset) are not shared
+            ncCheck(nc_close(ncId), "closing parent filehandle");
+            ncCheck(nc_open(filename.c_str(), NC_NOWRITE, &ncId), "re-opening '" + filename + "' after fork");
+            reopened = true;
+        }
     }
+    if (reopened)
+        LOG4FIMEX(logger, Logger::DEBUG, "reopened file " << filename << " after fork to " << this_pid);
 }
 
 OmpMutex& Nc::getMutex()
-- 
2.43.0


From b518ea282856517b638ffbb0f0e77a4062893055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:47 +0000
Subject: [PATCH 02/40] fix: keep exceptions from leaving the C interface

---
 src/c_fimex.cc | 61 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..a6a1d46 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
@@ -277,9 +277,13 @@ const char* mifi_get_unlimited_dimension_name(mifi_cdm_reader* reader)
 
 static std::string do_mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 {
-    std::string lon,lat;
-    if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
-        return lon;
+    try {
+        std::string lon,lat;
+        if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
+            return lon;
+        }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_longitude: " << ex.what());
     }
     return "";
 }
@@ -297,9 +301,13 @@ int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, cha
 
 static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 {
-    std::string lon,lat;
-    if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
-        return lat;
+    try {
+        std::string lon,lat;
+        if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
+            return lat;
+        }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_latitude: " << ex.what());
     }
     return "";
 }
@@ -352,8 +360,12 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
-    if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+    try {
+        if (sb != 0) {
+            return sb->sb_->getDimensionNames().at(pos);
+        }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_dimname: " << ex.what());
     }
     return "";
 }
@@ -390,7 +402,7 @@ int mifi_slicebuilder_get_axistype(mifi_slicebuilder* sb, int* axistype)
             vector<CoordinateAxis::AxisType> axes = csb->getAxisTypes();
             transform(axes.begin(), axes.end(), axistype, CoordinateAxis::type2int);
             return 0;
-        } catch (CDMException& ex) {
+        } catch (exception& ex) {
             return -2;
         }
     }
@@ -399,15 +411,18 @@ int mifi_slicebuilder_get_axistype(mifi_slicebuilder* sb, int* axistype)
 
 static std::string do_mifi_slicebuilder_get_proj4(mifi_slicebuilder* sb)
 {
-    string retVal = "";
-    if (mifi_slicebuilder_has_CS(sb) == 1) {
-        CoordinateSystemSliceBuilder* csb = dynamic_cast<CoordinateSystemSliceBuilder*>(sb->sb_.get());
-        assert(csb != 0);
-        if (Projection_cp pr = csb->getCoordinateSystem()->getProjection()) {
-            retVal = pr->getProj4String();
+    try {
+        if (mifi_slicebuilder_has_CS(sb) == 1) {
+            CoordinateSystemSliceBuilder* csb = dynamic_cast<CoordinateSystemSliceBuilder*>(sb->sb_.get());
+            assert(csb != 0);
+            if (Projection_cp pr = csb->getCoordinateSystem()->getProjection()) {
+                return pr->getProj4String();
+            }
         }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_get_proj4: " << ex.what());
     }
-    return retVal;
+    return "";
 }
 
 const char* mifi_slicebuilder_get_proj4(mifi_slicebuilder* sb)
@@ -424,8 +439,12 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
@@ -526,7 +545,7 @@ double mifi_get_unique_forecast_reference_time(mifi_cdm_reader* reader, const ch
     try {
         TimeUnit tu(units);
         retVal = tu.fimexTime2unitTime(getUniqueForecastReferenceTimeFT(reader->reader_));
-    } catch (CDMException& ex) {
+    } catch (exception& ex) {
         return MIFI_UNDEFINED_D;
     }
     return retVal;
-- 
2.43.0


From f58ff7577110b8dafd9d50891c75db7b071a9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 03/40] fix: keep exceptions from leaving OpenMP regions

---
 src/CachedInterpolation.cc        |  8 +++++---
 src/FillWriter.cc                 | 11 ++++++++++-
 src/Null_CDMWriter.cc             | 12 +++++++++++-
 src/io/netcdf/NetCDF_CDMWriter.cc |  8 ++++++--
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..210b383 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -35,6 +35,8 @@
 
 #include "fimex/Logger.h"
 
+#include <atomic>
+
 #ifdef _OPENMP
 #include <omp.h>
 #endif
@@ -177,11 +179,11 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
     newSize = outLayerSize*inZ;
     auto outfield = make_shared_array<float>(newSize);
 
+    std::atomic<bool> error(false); // an exception must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel default(shared)
     {
 #endif
-        bool error = false;
         std::unique_ptr<float[]> zValues(new float[inZ]);
 #ifdef _OPENMP
 #pragma omp for
@@ -199,11 +201,11 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
             }
         }
     }
-    if (error)
-        throw CDMException("error during interpolation");
 #ifdef _OPENMP
     }
 #endif
+    if (error)
+        throw CDMException("error during interpolation");
 
     return outfield;
 }
diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..da05c1b 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -35,6 +35,7 @@
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -190,10 +191,11 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    std::exception_ptr failure; // an exception must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (int iVar = 0; iVar < varVecSize; iVar++) {
+    for (int iVar = 0; iVar < varVecSize; iVar++) try {
         const auto& iv = iVars.at(iVar);
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
@@ -275,7 +277,14 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
             io->putDataSlice(iv.getName(), slice.second, inData);
         }
+    } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(fill_writer_failure)
+#endif
+        failure = std::current_exception();
     }
+    if (failure)
+        std::rethrow_exception(failure);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
diff --git a/src/Null_CDMWriter.cc b/src/Null_CDMWriter.cc
index f63856f..50069a3 100644
--- a/src/Null_CDMWriter.cc
+++ b/src/Null_CDMWriter.cc
@@ -37,6 +37,8 @@
 #include "fimex/mifi_mpi.h"
 #endif
 
+#include <exception>
+
 namespace MetNoFimex {
 
 namespace {
@@ -113,10 +115,11 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
     // write data
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
+    std::exception_ptr failure; // an exception must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) {
+    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) try {
 #ifdef HAVE_MPI
         if (mifi_mpi_initialized()) {
             // only work on variables which belong to this mpi-process (modulo-base)
@@ -143,7 +146,14 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
                                    ", datatype: " + type2string(cdmVar.getDataType()));
             }
         }
+    } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(null_writer_failure)
+#endif
+        failure = std::current_exception();
     }
+    if (failure)
+        std::rethrow_exception(failure);
 }
 
 Null_CDMWriter::~Null_CDMWriter()
diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..1b1f816 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <numeric>
@@ -595,7 +596,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
     // see http://www.unidata.ucar.edu/support/help/MailArchives/netcdf/msg10905.html
     // use unLimDimPos = -1 for variables without unlimited dimension
 
-    bool exceptions = false;
+    std::atomic<bool> exceptions(false);
 #ifdef _OPENMP
 #if (defined(__GNUC__) && __GNUC__ >= 9) || defined(__clang__)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, maxUnLim, unLimDimId, exceptions)
@@ -603,7 +604,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, exceptions)
 #endif // __INTEL_COMPILER
 #endif // _OPENMP
-    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) {
+    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) try { // an exception must not leave the parallel region
 #ifdef HAVE_MPI
         if (using_mpi) {
             if (sliceAlongUnlimited) { // MPI-slices along unlimited dimension
@@ -733,6 +734,9 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
             NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
         }
 #endif
+    } catch (std::exception& ex) {
+        LOG4FIMEX(logger, Logger::ERROR, "exception while writing data at unlimited dim position " << unLimDimPos << ": " << ex.what());
+        exceptions = true;
     }
     if (exceptions)
         throw CDMException("netcdf writing failed with ERRORs");
-- 
2.43.0


From 2fbea44da450ea298b2bb7e2f4a34ac06469737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:19 +0000
Subject: [PATCH 04/40] fix: check the status of every netCDF call and fail
 when a variable cannot be written

---
 src/io/netcdf/NetCDF_CDMReader.cc | 6 +++---
 src/io/netcdf/NetCDF_CDMWriter.cc | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 26f9431..297c088 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -55,7 +55,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
         LOG4FIMEX(logger, Logger::DEBUG, "setting chunk cache to " << fimexSlots << " slots of size " << (long)(cacheSize / 1024 / 1024) << "MB");
 
         OmpScopedLock lock(Nc::getMutex());
-        nc_set_chunk_cache(cacheSize, fimexSlots, 0.75);
+        ncCheck(nc_set_chunk_cache(cacheSize, fimexSlots, 0.75));
     }
     ncFile->filename = filename;
 
@@ -93,7 +93,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
         char ncName[NC_MAX_NAME + 1];
         for (int i = 0; i < nvars; ++i) {
             nc_type dtype;
-            nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts);
+            ncCheck(nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts));
             std::vector<std::string> shape;
             shape.reserve(ndims);
             // reverse dimensions
@@ -119,7 +119,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
     // define global attributes
     {
         int natts;
-        nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts);
+        ncCheck(nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts));
         char attName[NC_MAX_NAME + 1];
         for (int j = 0; j < natts; ++j) {
             ncCheck(nc_inq_attname(ncFile->ncId, NC_GLOBAL, j, attName));
diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 1b1f816..a8fccc2 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -146,7 +146,7 @@ NetCDF_CDMWriter::NetCDF_CDMWriter(CDMReader_p reader, const std::string& output
     if (ncFile->format < 3) {
         // using nofill for netcdf3 (2times io) -- does not affect netcdf4
         int oldFill;
-        NCMUTEX_LOCKED(nc_set_fill(ncFile->ncId, NC_NOFILL, &oldFill));
+        NCMUTEX_LOCKED(ncCheck(nc_set_fill(ncFile->ncId, NC_NOFILL, &oldFill)));
     }
     initNcmlReader(doc);
     cdm = cdmReader->getCDM();
@@ -723,9 +723,11 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
-- 
2.43.0


From 49eda59b3a1ebbab3dd4939893b7487ee3cd80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:48 +0000
Subject: [PATCH 05/40] fix: report a failure to decode the cluster number of a
 GRIB message

---
 src/io/grib/GribFileIndex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..c246bc8 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -659,6 +659,8 @@ GribFileMessage::GribFileMessage(grib_handle_p gh, const std::string& msgURL, lo
             int gribError_cn = grib_get_nocheck(gh, "clusterNumber", perturbationNo_);
             if (gribError_cn == GRIB_NOT_FOUND) {
                 perturbationNo_ = 0;
+            } else {
+                MIFI_GRIB_CHECK(gribError_cn, 0);
             }
         } else {
             // LOG4FIMEX(logger, Logger::DEBUG, "clusterNumber for " << fileURL.c_str() << " not found [" << perturbationNo_ << "," << totalNumberOfEnsembles_
-- 
2.43.0


From 9fc8b9647879a1bc2ec63bcb60ae76cb46ee6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:59 +0000
Subject: [PATCH 06/40] fix: read string arrays from the binary index through
 the stored string numbers

readData() ignored the stored positions in the string table for CDM_STRINGS and always used
the first strings of the table.
---
 src/ProtobufCDM.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProtobufCDM.cc b/src/ProtobufCDM.cc
index 55e295d..202bb27 100644
--- a/src/ProtobufCDM.cc
+++ b/src/ProtobufCDM.cc
@@ -164,7 +164,7 @@ DataPtr readData(const fimex_index::CDMData& fdata, const fimex_index::CDM& fcdm
         if (fdata.strings_size() > 0) {
             auto strings = make_shared_array<std::string>(fdata.strings_size());
             for (size_t fsi = 0; fsi < fdata.strings_size(); ++fsi) {
-                strings[fsi] = fcdm.strings(fsi);
+                strings[fsi] = fcdm.strings(fdata.strings(fsi));
             }
             return createData(fdata.strings_size(), strings);
         } else {
-- 
2.43.0


From 232189e94a4fe92e682555af08a8e03cc6fe0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 07/40] fix: make the Fortran bindings agree with the C
 functions they are bound to

---
 modules/F90/fimex.f90 | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/F90/fimex.f90 b/modules/F90/fimex.f90
index 4090ae5..ab89ab3 100644
--- a/modules/F90/fimex.f90
+++ b/modules/F90/fimex.f90
@@ -155,11 +155,11 @@ MODULE Fimex
 
     !> F90-wrapper for mifi_get_variable_type()
     FUNCTION c_mifi_get_variable_type(io, varName) BIND(C,NAME="mifi_get_variable_type")
-      USE iso_c_binding, ONLY: C_LONG, C_PTR, C_CHAR
+      USE iso_c_binding, ONLY: C_INT, C_PTR, C_CHAR
       IMPLICIT NONE
       TYPE(C_PTR), VALUE                      :: io
       CHARACTER(KIND=C_CHAR),INTENT(IN)       :: varName(*)
-      INTEGER(KIND=C_LONG)                    :: c_mifi_get_variable_type
+      INTEGER(KIND=C_INT)                     :: c_mifi_get_variable_type
     END FUNCTION c_mifi_get_variable_type
 
 
@@ -327,14 +327,15 @@ MODULE Fimex
       INTEGER(KIND=C_INT)                :: c_mifi_write_scaled_double_dataslice
     END FUNCTION c_mifi_write_scaled_double_dataslice
 
-    !> F90-wrapper for mifi_read_field()
-    FUNCTION c_mifi_read_field(io,cunit,fieldptr,dataRead) BIND(C,NAME="mifi_get_double_dataslice")
-      USE iso_c_binding, ONLY: C_INT,C_PTR,C_CHAR,C_DOUBLE
+    !> F90-wrapper for mifi_get_double_dataslice()
+    FUNCTION c_mifi_read_field(io,varName,unLimDimPos,fieldptr,dataRead) BIND(C,NAME="mifi_get_double_dataslice")
+      USE iso_c_binding, ONLY: C_INT,C_PTR,C_CHAR,C_LONG_LONG
       IMPLICIT NONE
       TYPE(C_PTR),INTENT(IN),VALUE                       :: io
-      CHARACTER(KIND=C_CHAR),                INTENT(IN)  :: cunit(*)
-      TYPE(C_PTR),INTENT(IN),VALUE                       :: fieldptr
-      INTEGER(KIND=C_INT),                   INTENT(OUT) :: dataRead
+      CHARACTER(KIND=C_CHAR),                INTENT(IN)  :: varName(*)
+      INTEGER(KIND=C_LONG_LONG),VALUE                    :: unLimDimPos ! should be C_SIZE_T but doesn't work with 4.6.3
+      TYPE(C_PTR),                           INTENT(OUT) :: fieldptr
+      INTEGER(KIND=C_LONG_LONG),             INTENT(OUT) :: dataRead    ! should be C_SIZE_T but doesn't work with 4.6.3
       INTEGER(KIND=C_INT)                                :: c_mifi_read_field
     END FUNCTION c_mifi_read_field
 
-- 
2.43.0


From 6827ac58fb1cc5cdd495e9fedd1bd5f1e509a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:56 +0000
Subject: [PATCH 08/40] fix: let forward_undef_min select the method of that
 name

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..5874728 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 63e0ab47eed236c80be824a8a0246ca66ab2a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 09/40] fix: do not look up times of an unknown time axis in
 CDMTimeInterpolator

getDataSlice dereferenced the end of the map when changeTimeAxis had not been called.
---
 src/CDMTimeInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..dba3b5f 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,8 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    const auto itTimes = dataReaderTimesInNewUnits_.find(timeAxis);
+    if (timeAxis.empty() || itTimes == dataReaderTimesInNewUnits_.end() || itTimes->second.empty()) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From 34ac030435220415686adf9bbece144e560b7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 10/40] fix: reject variables with undefined dimensions in
 NetCDF_CDMWriter

The end of the dimension map was dereferenced.
---
 src/io/netcdf/NetCDF_CDMWriter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index a8fccc2..d9d80de 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -384,7 +384,10 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
         std::unique_ptr<int[]> ncshape(new int[shape.size()]);
         for (size_t i = 0; i < shape.size(); i++) {
             // revert order, cdm requires fastest moving first, netcdf requires fastest moving first
-            ncshape[i] = ncDimIdMap.find(shape[(shape.size() - 1 - i)])->second;
+            const NcDimIdMap::const_iterator itDim = ncDimIdMap.find(shape[(shape.size() - 1 - i)]);
+            if (itDim == ncDimIdMap.end())
+                throw CDMException("variable '" + var.getName() + "' has undefined dimension '" + shape[(shape.size() - 1 - i)] + "'");
+            ncshape[i] = itDim->second;
         }
         CDMDataType datatype = var.getDataType();
         if (variableTypeChanges.find(var.getName()) != variableTypeChanges.end()) {
-- 
2.43.0


From 1bc98fbca8fdea620f3f624ebcab9a72d0a3eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 11/40] fix: handle coordinate systems without horizontal axes
 when merging

---
 src/CDMMergeUtils.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..7519477 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -216,10 +216,11 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
                 LOG_INCOMPATIBLE("mismatch in dimensions with length!=1");
 
             // must reach x/y axis at the same time
-            const bool isGeoXB = (shapeB[idxB] == csB->getGeoXAxis()->getName()),
-                    isGeoXT = (shapeT[idxT] == csT->getGeoXAxis()->getName()),
-                    isGeoYB = (shapeB[idxB] == csB->getGeoYAxis()->getName()),
-                    isGeoYT = (shapeT[idxT] == csT->getGeoYAxis()->getName());
+            const CoordinateAxis_cp xAxisB = csB->getGeoXAxis(), xAxisT = csT->getGeoXAxis(), yAxisB = csB->getGeoYAxis(), yAxisT = csT->getGeoYAxis();
+            const bool isGeoXB = (xAxisB && shapeB[idxB] == xAxisB->getName()),
+                    isGeoXT = (xAxisT && shapeT[idxT] == xAxisT->getName()),
+                    isGeoYB = (yAxisB && shapeB[idxB] == yAxisB->getName()),
+                    isGeoYT = (yAxisT && shapeT[idxT] == yAxisT->getName());
             if (isGeoXB != isGeoXT or isGeoYB != isGeoYT)
                 LOG_INCOMPATIBLE("geo x/y mismatch");
 
-- 
2.43.0


From 5e2da9864376cd6aae881d2e2ed79f1697b8cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 12/40] fix: do not use missing converters and temperatures in
 pressure conversions

The pressure converter was used after its creation failed, and the search
for a temperature advanced the wrong iterator and used the end iterator.
---
 src/CDMPressureConversions.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..716dc23 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -359,9 +359,9 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
-            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
+            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and any temperature found");
             continue;
         }
 
@@ -565,6 +565,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From d2aa53f352062930b9bc18bf0f71e4afd285dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 13/40] fix: report a missing coordinate system when
 interpolating to an axis

---
 src/CDMVerticalInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..741071a 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -369,6 +369,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         CDMReader_p self(this, [](CDMReader*) { }); // FIXME hack to avoid adding enable_shared_from_this
         const CoordinateSystem_cp_v coordSys = listCoordinateSystems(self);
         const auto cs = findCompleteCoordinateSystemFor(coordSys, varName);
+        if (!cs)
+            throw CDMException(varName + " has no coordinate system with the vertical axis '" + pimpl_->vAxis + "'");
         oConverter = verticalConverter(cs, self, pimpl_->verticalType);
         oVerticalData = verticalData4D(oConverter, *cdm_, unLimDimPos);
     } else if (pimpl_->templateCS) {
-- 
2.43.0


From 7a2567d52a2763fa1b2ff73eb0f81367b62aa339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:16 +0000
Subject: [PATCH 14/40] fix: do not read past the end of an axis for a log
 message in reduceAxes

---
 src/CDMExtractor.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..0ba207b 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -357,12 +357,7 @@ void CDMExtractor::reduceAxes(const std::vector<CoordinateAxis::AxisType>& types
                 double* lower = lower_bound(&vArray[0], &vArray[0] + vData->size(), startValX); // val included
                 double* upper = upper_bound(&vArray[0], &vArray[0] + vData->size(), endValX);   // val excluded
 
-                if (upper == (&vArray[0] + vData->size())) {
-                    LOG4FIMEX(logger, Logger::DEBUG, "reduceAxes found lower,upper ("<< *lower << ",end)");
-                } else {
-                    LOG4FIMEX(logger, Logger::DEBUG, "reduceAxes found lower,upper ("<< *lower << ","<< *upper <<")");
-                }
-
+                LOG4FIMEX(logger, Logger::DEBUG, "reduceAxes found lower,upper positions (" << (lower - &vArray[0]) << "," << (upper - &vArray[0]) << ")");
 
                 // reduce dimension according to these points (name, startPos, size)
                 long startPos = distance(&vArray[0], lower);
-- 
2.43.0


From 276c5e31ab71712f435ea091903681e828d6d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 15/40] fix: free the XML document when it cannot be prepared
 for use

---
 src/XMLDoc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/XMLDoc.cc b/src/XMLDoc.cc
index abc7093..592b1f5 100644
--- a/src/XMLDoc.cc
+++ b/src/XMLDoc.cc
@@ -94,11 +94,13 @@ XMLDoc::XMLDoc(xmlDoc* pdoc, const std::string& url)
 {
     // apply the XInclude process
     if (xmlXIncludeProcess(doc) < 0) {
+        xmlFreeDoc(doc); // the destructor does not run
         throw CDMException("XInclude processing failed for '" + url + "'");
     }
 
     xpathCtx = xmlXPathNewContext(pdoc);
     if (!xpathCtx) {
+        xmlFreeDoc(doc); // the destructor does not run
         throw CDMException("unable to generate xpath context for '" + url + "'");
     }
 }
-- 
2.43.0


From 5114fe482be9c13b3795074fb5ef4f4dda789d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:54 +0000
Subject: [PATCH 16/40] fix: unload an io plugin that cannot be used

---
 src/IoPlugin.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IoPlugin.cc b/src/IoPlugin.cc
index 1af5ac0..cf78168 100644
--- a/src/IoPlugin.cc
+++ b/src/IoPlugin.cc
@@ -63,6 +63,7 @@ IoPlugin::IoPlugin(const std::string& lib_path)
         msg << "Cannot load library '" << lib_path << "': " << dlerror();
         throw CDMException(msg.str());
     }
+    std::unique_ptr<void, int (*)(void*)> unload(lib_, dlclose); // the destructor does not run if an exception is thrown
     dlerror();
 
     ioplugin_info_t* iop_info = (ioplugin_info_t*)load_sym(lib_, "fimex_ioplugin_info");
@@ -86,6 +87,7 @@ IoPlugin::IoPlugin(const std::string& lib_path)
     }
 
     wrapped_ = std::shared_ptr<IoFactory>(iof, *plugin_->destroy);
+    unload.release();
 }
 
 IoPlugin::~IoPlugin()
-- 
2.43.0


From 109c8b760c00906bbc87e5a5c3ff9da333456603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:01 +0000
Subject: [PATCH 17/40] fix: do not lose a logger implementation when two
 threads create it

---
 src/Logger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Logger.cc b/src/Logger.cc
index 0005c9d..d84a19b 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -187,6 +187,8 @@ LoggerImpl* Logger::impl()
         }
         if (!pimpl_)
             pimpl_ = i;
+        else
+            delete i; // another thread was faster
     }
     return pimpl_;
 }
-- 
2.43.0


From 6ab358e149a563e2d87d464ca1024e537d66acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:13 +0000
Subject: [PATCH 18/40] fix: close the grib template file

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index cb14b7d..6fd7a95 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -90,10 +90,10 @@ GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CD
         if (nodes.size() == 1) {
             const auto gribTemplate = getXmlProp(nodes[0], "name");
             int error;
-            FILE* fh = std::fopen(gribTemplate.c_str(), "r");
+            std::unique_ptr<FILE, int (*)(FILE*)> fh(std::fopen(gribTemplate.c_str(), "r"), std::fclose);
             if (!fh)
                 throw CDMException("unable to open grib template file '" + gribTemplate + "', error is:" + std::strerror(errno));
-            gribHandle = std::shared_ptr<grib_handle>(grib_handle_new_from_file(0, fh, &error), grib_handle_delete);
+            gribHandle = std::shared_ptr<grib_handle>(grib_handle_new_from_file(0, fh.get(), &error), grib_handle_delete);
             if (!gribHandle)
                 throw CDMException("unable to create grib handle for template '" + gribTemplate + "'");
         } else {
-- 
2.43.0


From b69d7c5e425c5015d5689b636e1e115ac37775be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:20 +0000
Subject: [PATCH 19/40] fix: do not close a netCDF file twice when reopening it
 fails

---
 src/io/netcdf/NetCDF_Utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fcde8a..79d5f19 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -113,8 +113,10 @@ void Nc::reopen_if_forked()
         if (pid != this_pid) {
             pid = this_pid;
             // reopen file so file descriptions (e.g. offset) are not shared
+            isOpen = false; // do not close it again if it cannot be reopened
             ncCheck(nc_close(ncId), "closing parent filehandle");
             ncCheck(nc_open(filename.c_str(), NC_NOWRITE, &ncId), "re-opening '" + filename + "' after fork");
+            isOpen = true;
             reopened = true;
         }
     }
-- 
2.43.0


From 11884062c8b1a266cfa85021cb049eeea978d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:41 +0000
Subject: [PATCH 20/40] fix: copy the buffer in NativeData::setValues instead
 of sharing it

---
 src/NativeData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NativeData.cc b/src/NativeData.cc
index 925bc7e..13d865a 100644
--- a/src/NativeData.cc
+++ b/src/NativeData.cc
@@ -40,7 +40,7 @@ void NativeData::setValues(size_t startPos, const Data& data, size_t first, size
         throw CDMException("cannot set native data from " + type2string(data.getDataType()) + " datatype");
     if (startPos != 0 || first != 0 || end != size_)
         throw CDMException("cannot set native data from " + type2string(data.getDataType()) + " slice");
-    data_ = data.asUChar();
+    data_ = data.clone()->asUChar(); // do not share the buffer
 }
 
 void NativeData::setAllValues(double d)
-- 
2.43.0


From 1d568524f6e4d972a02b12f6d56364494b70f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:06 +0000
Subject: [PATCH 21/40] fix: keep the accumulation cache of CDMProcessor apart
 from the data handed out

---
 src/CDMProcessor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..2a5de63 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -612,9 +612,9 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
                 if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+                    data = p_->sliceCache.data->clone();
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
+                    DataPtr dataP = p_->sliceCache.data->clone();
                     addDataP2Data(data, dataP, false);
                 }
             }
@@ -626,7 +626,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             // fill the cache
             p_->sliceCache.varName = varName;
             p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data;
+            p_->sliceCache.data = data->clone(); // the caller may modify data
         }
     }
 
-- 
2.43.0


From 157fc3bcd165ee0c50a31871b31c91e3ff496b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 22/40] fix: look up keys without modifying the maps shared by
 concurrent reads

std::map::operator[] is a modifying access; the map of a reader or filter is
shared by all threads reading from it.
---
 src/CDMProcessor.cc           | 14 +++++++-------
 src/CDMQualityExtractor.cc    | 10 +++++-----
 src/io/felt/FeltCDMReader2.cc |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 2a5de63..fd85d86 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -664,18 +664,18 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             xIsFirst = true;
             xData = data;
             xVar = varName;
-            yVar = p_->rotateLatLonVectorX[varName].first;
+            yVar = p_->rotateLatLonVectorX.at(varName).first;
             yData = p_->dataReader->getDataSlice(yVar, unLimDimPos);
-            csId = p_->rotateLatLonVectorX[varName].second;
+            csId = p_->rotateLatLonVectorX.at(varName).second;
         } else {
             xIsFirst = false;
             yData = data;
             yVar = varName;
-            xVar = p_->rotateLatLonVectorY[varName].first;
+            xVar = p_->rotateLatLonVectorY.at(varName).first;
             xData = p_->dataReader->getDataSlice(xVar, unLimDimPos);
-            csId = p_->rotateLatLonVectorY[varName].second;
+            csId = p_->rotateLatLonVectorY.at(varName).second;
         }
-        CachedVectorReprojection_p cvr = p_->cachedVectorReprojection[csId];
+        CachedVectorReprojection_p cvr = p_->cachedVectorReprojection.at(csId);
         auto xArray = data2InterpolationArray(xData, getCDM().getFillValue(xVar));
         auto yArray = data2InterpolationArray(yData, getCDM().getFillValue(yVar));
         if (xData->size() != yData->size()) {
@@ -694,10 +694,10 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         if (p_->deaccumulateVars.find(varName) != p_->deaccumulateVars.end()) {
             LOG4FIMEX(logger, Logger::WARN, varName << " deaccumulate and rotated, this won't work as expected");
         }
-        const string& csId = p_->rotateLatLonDirection[varName];
+        const string& csId = p_->rotateLatLonDirection.at(varName);
         LOG4FIMEX(logger, Logger::DEBUG, "rotating direction " << varName << " with csId " << csId);
         assert(p_->cachedVectorReprojection.find(csId) != p_->cachedVectorReprojection.end());
-        CachedVectorReprojection_p cvr = p_->cachedVectorReprojection[csId];
+        CachedVectorReprojection_p cvr = p_->cachedVectorReprojection.at(csId);
         auto array = data2InterpolationArray(data, getCDM().getFillValue(varName));
         double addOffset = 0.;
         double scaleFactor = 1.;
diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..c2c07ea 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -239,7 +239,7 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
     DataPtr data = dataReader->getDataSlice(varName, unLimDimPos);
     // test if variable has quality assignment
     if (statusVariable.find(varName) != statusVariable.end()) {
-        const string& statusVar = statusVariable[varName];
+        const string& statusVar = statusVariable.at(varName);
         DataPtr statusData;
         const std::map<std::string, CDMReader_p>::iterator sit = statusReaders.find(varName);
         CDMReader_p readerS = dataReader;
@@ -272,17 +272,17 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
             }
 
             // return undefined data with new fill-value
-            return createData(cdm_->getVariable(varName).getDataType(), length, variableFill[varName]);
+            return createData(cdm_->getVariable(varName).getDataType(), length, variableFill.at(varName));
         }
         const double sizeRatio = double(sizeD)/sizeS;
         if (sizeRatio == int(sizeRatio) && sizeRatio >= 1) {
             auto sd = statusData->asDouble();
             vector<double> useVals;
             if (variableValues.find(varName) != variableValues.end()) {
-                useVals = variableValues[varName];
+                useVals = variableValues.at(varName);
                 sort(useVals.begin(), useVals.end());
             } else if (variableFlags.find(varName) != variableFlags.end()) {
-                const string& flag = variableFlags[varName];
+                const string& flag = variableFlags.at(varName);
                 double statusFill = cdmS.getFillValue(statusVar);
                 double minFlag = MIFI_UNDEFINED_D;
                 double maxFlag = MIFI_UNDEFINED_D;
@@ -371,7 +371,7 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
                     sdIt++;
                 }
             }
-            double fillValue = variableFill[varName];
+            double fillValue = variableFill.at(varName);
             for(size_t iD = 0; iD < sizeD; ) {
                 double *sdIt = &sd[0];
                 for (size_t iS = 0; iS < sizeS; ++iS, ++iD) {
diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index eeaa9dc..4335c96 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -678,7 +678,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
             vector<LevelPair> layerVals;
             if ((layerDim != 0) && (layerDim->getLength() > 0)) {
                 for (size_t i = 0; i < layerDim->getLength(); ++i) {
-                    layerVals.push_back(levelVecMap[layerDim->getName()][i]);
+                    layerVals.push_back(levelVecMap.at(layerDim->getName())[i]);
                 }
             } else {
                 // no layers, just 1 level
-- 
2.43.0


From e73386810c9832db1316f0e8ca865f8af305f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 23/40] fix: lock the felt file also when reading the size of a
 grid

Felt_Array2::getX and getY read the grid header lazily from the file.
---
 src/io/felt/FeltCDMReader2.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index 4335c96..10533f0 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -705,8 +705,12 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
 
             size_t dataCurrentPos = 0;
             // xa
-            unsigned int xDim = fa->getX();
-            unsigned int yDim = fa->getY();
+            unsigned int xDim, yDim;
+            {
+                OmpScopedLock lock(mutex_); // reads the grid header from the file
+                xDim = fa->getX();
+                yDim = fa->getY();
+            }
             for (vector<LevelPair>::const_iterator lit = layerVals.begin(); lit != layerVals.end(); ++lit) {
                 // get the time, if available
                 MetNoFimex::FimexTime t;
-- 
2.43.0


From e5f78552ebbb60d3db0bc40c1edb55d56f2cd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 24/40] fix: protect the accumulation cache of CDMProcessor
 against concurrent reads

---
 src/CDMProcessor.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index fd85d86..febbee2 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -64,7 +65,7 @@ typedef std::shared_ptr<CachedVectorReprojection> CachedVectorReprojection_p;
 
 struct SliceCache {
     string varName;
-    size_t ulimDimPos;
+    size_t ulimDimPos = 0;
     DataPtr data;
 };
 
@@ -104,6 +105,7 @@ struct CDMProcessor::CDMProcessorImpl
     // horizontalId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex;
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -609,12 +611,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data->clone();
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data->clone();
                 } else {
-                    DataPtr dataP = p_->sliceCache.data->clone();
+                    DataPtr dataP = cached.data->clone();
                     addDataP2Data(data, dataP, false);
                 }
             }
@@ -624,9 +631,11 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 addDataP2Data(data, dataP, i == 0);
             }
             // fill the cache
-            p_->sliceCache.varName = varName;
-            p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data->clone(); // the caller may modify data
+            cached.varName = varName;
+            cached.ulimDimPos = unLimDimPos;
+            cached.data = data->clone(); // the caller may modify data
+            OmpScopedLock lock(p_->sliceCacheMutex);
+            p_->sliceCache = cached;
         }
     }
 
-- 
2.43.0


From 89a8f4975889aa5c490b2ad1eab7035861cce16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:55 +0000
Subject: [PATCH 25/40] fix: give every forward interpolation its own
 aggregator

The interpolation is shared by all threads which read from a CDMInterpolator;
the aggregator of the object mixed their values.
---
 src/CachedForwardInterpolation.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..7943ad0 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -56,6 +56,7 @@ struct Aggregator
     virtual ~Aggregator();
     virtual void push(float f) = 0;
     virtual float get_and_reset() = 0;
+    virtual std::unique_ptr<Aggregator> clone() const = 0;
 };
 
 Aggregator::~Aggregator() {}
@@ -64,7 +65,11 @@ struct AggSimple : Aggregator
 {
     size_t count;
     float val;
-    AggSimple() { reset(0); }
+    AggSimple()
+        : count(0)
+        , val(0)
+    {
+    }
     float get_and_reset() override { return reset(val); }
     float reset(float v)
     {
@@ -78,6 +83,7 @@ struct AggSimple : Aggregator
 
 struct AggSum : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggSum(*this)); }
     void push(float f) override
     {
         count += 1;
@@ -87,11 +93,13 @@ struct AggSum : AggSimple
 
 struct AggMean : AggSum
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMean(*this)); }
     float get_and_reset() override { return reset(count > 0 ? val / count : 0); }
 };
 
 struct AggMin : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMin(*this)); }
     void push(float f) override
     {
         if (count == 0 || f < val)
@@ -102,6 +110,7 @@ struct AggMin : AggSimple
 
 struct AggMax : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMax(*this)); }
     void push(float f) override
     {
         if (count == 0 || f > val)
@@ -114,6 +123,7 @@ struct AggMedian : Aggregator
 {
     std::vector<float> values;
     AggMedian(size_t n) { values.reserve(n); }
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMedian(*this)); }
     void push(float f) override { values.push_back(f); }
     float get_and_reset() override;
 };
@@ -209,6 +219,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     size_t inZ = size / inLayerSize;
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
+    const auto agg = this->agg->clone(); // this object is shared between threads
     for (size_t z = 0; z < inZ; ++z) {
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
-- 
2.43.0


From 9f28d071d6d349003823685cd9796fbf60928097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 26/40] fix: use one PROJ context per thread

The context was created without synchronisation and shared by all threads.
---
 src/reproject.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..49df0e3 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -55,11 +55,12 @@ Logger_p logger = getLogger("fimex.reproject");
 
 PJ_CONTEXT* crs2crs_ctx()
 {
-    static PJ_CONTEXT* pj_ctx = 0;
+    // a context must not be used by several threads
+    static thread_local std::unique_ptr<PJ_CONTEXT, PJ_CONTEXT* (*)(PJ_CONTEXT*)> pj_ctx(nullptr, proj_context_destroy);
     if (!pj_ctx) {
-        pj_ctx = proj_context_create();
+        pj_ctx.reset(proj_context_create());
     }
-    return pj_ctx;
+    return pj_ctx.get();
 }
 
 void throw_proj_error(int pe)
-- 
2.43.0


From e88354c4f4803eb915d854f080aae4f91d257fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 27/40] fix: create the default logger class under the logger
 mutex

---
 src/Logger.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index d84a19b..4c5be5b 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -122,10 +122,15 @@ bool Logger::setClass(LogClass logClass)
 
 LoggerClass* getLoggerClass()
 {
-    // FIXME should lock here ...
-    if (!loggerClass_)
-        // ... and unlock here
-        Logger::setClass(Logger::LOG4CPP);
+    OmpScopedLock lock(loggerMutex);
+    if (!loggerClass_) {
+#ifdef HAVE_LOG4CPP
+        Log4cppClass::configureMinimal(defaultLogLevel());
+        loggerClass_ = new Log4cppClass;
+#else
+        loggerClass_ = new Log2StderrClass;
+#endif
+    }
     return loggerClass_;
 }
 
-- 
2.43.0


From 0fb45eab7a5157222a2a5e07e033ca7874883351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 28/40] fix: bilinear interpolation reads the row behind the
 field

At a border in x, a position rounding to y == iy was accepted as nearest neighbor.
---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 5874728..b9b30be 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -319,7 +319,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From 31f694bcb2165b46fc65e1bbbb67e533af524a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 29/40] fix: mifi_griddistance accesses arrays of an empty grid

---
 src/interpolation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index b9b30be..1c9f0a4 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -828,7 +828,9 @@ int mifi_creepfillval2d_f(size_t nx, size_t ny, float* field, float defaultVal,
 int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double* latVals, float* gridDistX, float* gridDistY)
 {
     size_t fieldSize = nx*ny;
-    if (fieldSize == 1) {
+    if (fieldSize == 0) {
+        return MIFI_ERROR; // no grid
+    } else if (fieldSize == 1) {
         gridDistX[0] = 0;
         gridDistY[0] = 0;
         return MIFI_ERROR; // no grid
-- 
2.43.0


From c19048482848c290b4be0fce1bbe8501e4a945a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 30/40] fix: mifi_fill2d_f reads outside of fields with a
 single row or column

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 1c9f0a4..beedc89 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -657,11 +657,11 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
         }
 
         // some work on the borders
-        for (size_t y = 1; y < nym1; y++) {
+        for (size_t y = 1; nx > 1 && y < nym1; y++) {
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
-- 
2.43.0


From c0b8efd08c64a613a4d83862a51e1d558547276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 31/40] fix: creepfill reads outside of fields with a single
 row or column

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index beedc89..b5717ef 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -757,7 +757,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
     }
     // simple calculations at the borders
     for (size_t l = 0; l < repeat; l++) {
-        for (size_t y = 1; y < nym1; y++) {
+        for (size_t y = 1; nx > 1 && y < nym1; y++) {
             if (rField[y*nx+0] < repeat) { // unset
                 field[y*nx+0] += field[y*nx+1]*wField[y*nx+1];
                 field[y*nx+0] /= (1+wField[y*nx+1]);
@@ -769,7 +769,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From d1143a2984fc77be670afd5d206e6e1b49493796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 32/40] fix: mifi_points2position reads outside of axes with a
 single value

---
 src/interpolation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index b5717ef..ebaa304 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -153,6 +153,13 @@ int bsearchDoubleIndex(const double key, const double* base, int num, int (*comp
 
 int mifi_points2position(double* points, const int n, const double* axis, const int num, const int axis_type)
 {
+    if (num < 2) {
+        // no neighbors on the axis, only the value on the axis has a position
+        for (int i = 0; i < n; i++) {
+            points[i] = (num == 1 && points[i] == axis[0]) ? 0. : -999.; // outside range
+        }
+        return MIFI_OK;
+    }
     int circularLongitude = 0;
     int (*comparator)(double a, double b);
     if (axis[0] < axis[num - 1])
-- 
2.43.0


From 5e797d7fc06beb4ed6ecb9c28d901cb98155abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 33/40] fix: mifi_compute_vertical_velocity accesses memory
 outside of tiny grids

---
 src/interpolation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index ebaa304..06748af 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -898,6 +898,9 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
     const double R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR;  // specific gas constant dry air
     const double g = MIFI_EARTH_GRAVITY; // gravity
 
+    if (nx < 3 || ny < 3 || nz < 1)
+        return MIFI_ERROR; // no neighbors for the horizontal derivatives
+
     double* mapRatioX = (double*) malloc(nx*ny*sizeof(double));
     double* mapRatioY = (double*) malloc(nx*ny*sizeof(double));
     double* rhx       = (double*) malloc(nx*ny*sizeof(double));
-- 
2.43.0


From dfff8f88b4a538927ab444ba00a0ac6fbc058392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:24 +0000
Subject: [PATCH 34/40] fix: vector reprojection reads outside of fields with
 two rows or columns

---
 src/reproject.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 49df0e3..132e1eb 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -369,12 +369,15 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
     const double defaultDelta = 1e-3;
     double deltaXY;
     {
-        if (ox > 1) {
+        if (ox < 1 || oy < 1) {
+            // no points
+            deltaXY = defaultDelta;
+        } else if (ox > 1) {
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = std::min(ox / 2, ox - 2);
+                size_t oy_2 = std::min(oy / 2, oy - 2);
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From 78ebd9dee6d1631c86a2061bc15a4c53e188c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:31 +0000
Subject: [PATCH 35/40] fix: SliceBuilder::setStartAndSize accepts slices
 outside of the dimension if start + size overflows

---
 src/SliceBuilder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..5fd12b3 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,8 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    const size_t maxSize = maxSize_.at(pos);
+    if ((!unlimited_.at(pos)) && (start > maxSize || size > maxSize - start)) { // start + size might overflow
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 28b41d8b98c8e508c0cb58b2504c911c134f7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:55 +0000
Subject: [PATCH 36/40] fix: Data::slice accepts slices outside of the data if
 start + size overflows

---
 src/DataImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..d7195e8 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -248,7 +248,7 @@ DataPtr DataImpl<C>::slice(const std::vector<size_t>& orgDimSize, const std::vec
     for (size_t i = 0; i < orgDimSize.size(); ++i) {
         outputSize *= outputDimSize[i];
         orgSize *= orgDimSize[i];
-        if (orgDimSize[i] < (startDims[i] + outputDimSize[i]))
+        if (startDims[i] > orgDimSize[i] || outputDimSize[i] > orgDimSize[i] - startDims[i]) // start + size might overflow
             throw CDMException("dimension-size error, start+size > orgSize: " + type2string(startDims[i] + outputDimSize[i]) + ">" +
                                type2string(orgDimSize[i]));
     }
-- 
2.43.0


From 4f1965a7f483fe30aefe48b9038f3acbd3b3f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:17 +0000
Subject: [PATCH 37/40] fix: Data::setValues writes outside of the data for
 start positions behind the end

---
 src/DataImpl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index d7195e8..781157e 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -199,6 +199,9 @@ void DataImpl<C>::copyData(size_t startPos, const shared_array<C>& otherData, si
     if (otherFirst > otherSize) {
         throw CDMException("data-region-start "+ type2string(otherFirst) + " outside range: "+ type2string(otherSize));
     }
+    if (startPos > size()) {
+        throw CDMException("data-region-start "+ type2string(startPos) + " outside range: "+ type2string(size()));
+    }
     // fixing max range
     otherLast = std::min(otherLast, otherSize);
     otherLast = std::min(size()-startPos+otherFirst, otherLast);
@@ -276,7 +279,7 @@ template<typename C>
 template<class InputIterator>
 void DataImpl<C>::setValues(InputIterator begin, InputIterator end, size_t dataStartPos) {
     size_t dist = std::distance(begin, end);
-    if ((dist + dataStartPos) > length)
+    if (dataStartPos > length || dist > length - dataStartPos)
         throw CDMException("dataPos " + type2string(dist+dataStartPos) + " >= dataLength " + type2string(length));
     std::transform(begin, end, &theData[dataStartPos], data_caster<C, typename InputIterator::value_type>());
 }
-- 
2.43.0


From e7cd1d911ccc99eb435dfccfe16af96eb98e6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:42 +0000
Subject: [PATCH 38/40] fix: slices behind the end of in-memory data return
 uninitialised values

---
 src/CDMReader.cc | 2 ++
 src/Data.cc      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..6bacd3d 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -253,6 +253,8 @@ DataPtr CDMReader::getDataSliceFromMemory(const CDMVariable& variable, size_t un
         if (cdm_->hasUnlimitedDim(variable)) {
             // cut out the unlimited dim data
             const auto sliceSize = product(getDimsSlice(variable.getName()));
+            if (sliceSize != 0 && unLimDimPos >= data->size() / sliceSize)
+                throw CDMException("position " + type2string(unLimDimPos) + " outside of the data of variable '" + variable.getName() + "'");
             return createDataSlice(variable.getDataType(), *data, unLimDimPos * sliceSize, sliceSize);
         } else {
             return data->clone();
diff --git a/src/Data.cc b/src/Data.cc
index 390a308..2c04350 100644
--- a/src/Data.cc
+++ b/src/Data.cc
@@ -122,6 +122,9 @@ DataPtr createData(const std::string& value)
 
 DataPtr createDataSlice(CDMDataType datatype, const Data& data, size_t dataStartPos, size_t length)
 {
+    if (dataStartPos > data.size() || length > data.size() - dataStartPos)
+        throw CDMException("data slice outside of the data, start: " + type2string(dataStartPos) + " size: " + type2string(length) +
+                           " data size: " + type2string(data.size()));
     DataPtr d;
     // clang-format off
     switch (datatype) {
-- 
2.43.0


From 7141842dc97551cee99876c189aacb5bebc9df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:53 +0000
Subject: [PATCH 39/40] fix: CDMExtractor::reduceDimension accepts the position
 just behind the end of the dimension

---
 src/CDMExtractor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 0ba207b..51f1cdd 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -260,7 +260,7 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
+        if (sz >= dim.getLength())
             throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
     }
 
-- 
2.43.0


From 065b395092e798dff9b389148b11fe952944949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:04 +0000
Subject: [PATCH 40/40] fix: CDMExtractor::reduceDimension exhausts memory for
 ranges outside of the dimension

---
 src/CDMExtractor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 51f1cdd..8490965 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -279,6 +279,10 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t dimLength = cdm_->getDimension(dimName).getLength();
+    if (start > dimLength || length > dimLength - start)
+        throw CDMException("can't select slice of dimension '" + dimName + "': start " + type2string(start) + " length " + type2string(length) +
+                           " out of bounds: " + type2string(dimLength));
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
-- 
2.43.0

