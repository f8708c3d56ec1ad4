From f6bedc5fa741309f6e77946530c804d841db72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 01/83] fix: local date texts during daylight saving time are
 in standard time at midnight too

ConvertToString and GetDateInfoFromTimet lost the hour at 00:xx (the day did not
roll back), and ConvertToString2/3 rolled back to the wrong month day on the
first day of a month.
---
 src/utils_time.cpp | 75 +++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 57 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..a0d9921 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -27,12 +27,24 @@ double TimeCounting() {
 #endif /* WINDOWS */
 }
 
+/*!
+ * \brief Convert broken-down daylight saving time to standard time, if it is
+ */
+static void DaylightToStandardTime(struct tm* date_info) {
+    if (date_info->tm_isdst <= 0) { return; }
+    date_info->tm_hour -= 1;
+    date_info->tm_isdst = 0;
+#ifdef WINDOWS
+    UTCTime(_mkgmtime(date_info), date_info); // normalize, i.e., may be in the previous day
+#else
+    UTCTime(timegm(date_info), date_info);
+#endif
+}
+
 string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    DaylightToStandardTime(date_info);
     char date_string[11];
     strftime(date_string, 11, "%Y-%m-%d", date_info);
     delete date_info;
@@ -40,32 +52,9 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
 }
 
 string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
-    static int month_days[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        if (date_info->tm_hour != 0) {
-            date_info->tm_hour -= 1;
-        } else {
-            date_info->tm_hour = 23;
-            date_info->tm_mday -= 1;
-            if (date_info->tm_mday == 0) {
-                date_info->tm_mon -= 1;
-
-                if (date_info->tm_mon == 0) {
-                    date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
-                    date_info->tm_mday = 31;
-                } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-                    } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
-                    }
-                }
-            }
-        }
-    }
+    DaylightToStandardTime(date_info);
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
     string s(date_string);
@@ -74,35 +63,9 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
 }
 /// format: 2022_11_17_092000
 string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
-	static int month_days[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
 	struct tm* date_info = new tm();
 	GetDateTime(date, date_info, utc_time);
-	if (date_info->tm_isdst > 0) {
-		if (date_info->tm_hour != 0) {
-			date_info->tm_hour -= 1;
-		}
-		else {
-			date_info->tm_hour = 23;
-			date_info->tm_mday -= 1;
-			if (date_info->tm_mday == 0) {
-				date_info->tm_mon -= 1;
-
-				if (date_info->tm_mon == 0) {
-					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
-					date_info->tm_mday = 31;
-				}
-				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-					}
-					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
-					}
-				}
-			}
-		}
-	}
+	DaylightToStandardTime(date_info);
 	char date_string[30];
 	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
@@ -182,9 +145,7 @@ time_t ConvertYMDToTime(int& year, int& month, int& day, const bool utc_time /*
 int GetDateInfoFromTimet(const time_t t, int* year, int* month, int* day, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(t, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    DaylightToStandardTime(date_info);
 
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
-- 
2.43.0


From 19a4c3de9f76b65169b2e3b7f9a8f90120ac40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 02/83] fix: ConvertToTime returns 0 for a text that the format
 does not match

Fields that sscanf did not assign were used uninitialized.
---
 src/utils_time.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index a0d9921..d73d840 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -87,10 +87,15 @@ time_t ConvertToTime(const string& str_date, string const& format, const bool in
     int sec = 0;
 
     try {
+        int scanned;
         if (include_hour) {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
+            scanned = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
         } else {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+            scanned = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+        }
+        if (scanned < 3) { // the date is essential, the time of day defaults to midnight
+            cout << "Error occurred when convert " + str_date + " to time_t!" << endl;
+            return t;
         }
         struct tm* time_info = new tm();
         time_info->tm_year = yr - 1900;
-- 
2.43.0


From 48e998f9a2a6935dcbdfc8ba6d17deea8e1bccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 03/83] fix: DateTime::Forward and Backward move by the given
 milliseconds

They moved by the millisecond field of the value itself.
---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index d73d840..c4496e7 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -453,17 +453,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + static_cast<vint64_t>(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - static_cast<vint64_t>(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 638ba2e7ad29555e1f6e851fa45f3553915c5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 04/83] fix: rasters built from an array and an SRS text are
 initialised

---
 src/data_raster.cpp |  6 ++++++
 src/data_raster.hpp | 18 ++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..b7bcb28 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -163,6 +163,12 @@ void UpdateStrHeader(STRING_MAP& strheader, const string& key, const string& val
     else { strheader.at(key) = val; }
 }
 
+STRING_MAP StrHeaderWithSrs(const string& srs) {
+    STRING_MAP options = InitialStrHeader();
+    UpdateStrHeader(options, HEADER_RS_SRS, srs);
+    return options;
+}
+
 RasterDataType RasterDataTypeInOptionals(const STRING_MAP& opts) {
     if (opts.find(HEADER_RSOUT_DATATYPE) != opts.end()) {
         return StringToRasterDataType(opts.at(HEADER_RSOUT_DATATYPE));
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..c440a01 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -194,6 +194,12 @@ STRING_MAP InitialStrHeader();
  * \brief Update header information in string
  */
 void UpdateStrHeader(STRING_MAP& strheader, const string& key, const string& val);
+
+/*!
+ * \brief Initial header information in string with the spatial reference
+ */
+STRING_MAP StrHeaderWithSrs(const string& srs);
+
 /*!
  * \brief Get output raster data type from optional inputs
  */
@@ -2078,10 +2084,8 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs) :
+    clsRasterData(data, cols, rows, nodata, dx, xll, yll, StrHeaderWithSrs(srs)) {
 }
 
 template <typename T, typename MASK_T>
@@ -2108,10 +2112,8 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs) :
+    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, StrHeaderWithSrs(srs)) {
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From e74435c187b4033c0a31cae815a08ad4380e52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 05/83] fix: rasters constructed from a list of files are
 initialised and read once

---
 src/data_raster.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c440a01..caffd14 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2172,14 +2172,11 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
     }
-    if (filenames.size() == 1) {
-        ReadFromFile(filenames[0], calc_pos, mask,
-                     use_mask_ext, default_value, opts);
-    }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
 }
-- 
2.43.0


From 164705771f35bdaa03bb66c5f2d7696830c8fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 06/83] fix: per-layer statistics arrays of multi-layer rasters
 are returned

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index caffd14..66f66b1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2514,7 +2514,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
@@ -2532,9 +2532,10 @@ void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double*
         return;
     }
     if (nullptr == it->second || !stats_calculated_) {
+        stats_calculated_ = false;
         CalculateStatistics();
     }
-    *values = it->second;
+    *values = stats_2d_.at(sindex);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 304ee7b2b51e36afebb5b9399de0f9b4d8dcc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 07/83] fix: Reclassify leaves no-data cells and gives unmapped
 values no-data

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 66f66b1..a9970dd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3749,10 +3749,10 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
     }
     for (int i = 0; i < n_cells_; i++) {
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
-            T curv = is_2draster && nullptr != raster_2d_
-                         ? CVT_INT(raster_2d_[i][lyr])
-                         : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            T orgv = is_2draster && nullptr != raster_2d_ ? raster_2d_[i][lyr] : raster_[i];
+            if (FloatEqual(orgv, no_data_value_)) { continue; }
+            int curv = CVT_INT(orgv);
+            if (recls.count(curv) == 0) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From 0b528e291c12b049c67329c7f4c329000691f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 08/83] fix: position arrays owned by a mask or the caller are
 never released

---
 src/data_raster.hpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a9970dd..315bef6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1892,6 +1892,11 @@ private:
      */
     int MaskAndCalculateValidPosition();
 
+    /*!
+     * \brief Release position arrays if they are owned by this raster, and forget them in any case
+     */
+    void ReleasePositions();
+
     /*!
      * \brief Calculate position index from rectangle grid values, if necessary.
      * To use this function, mask should be nullptr.
@@ -2816,7 +2821,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
     if (nullptr != pos_data_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release2DArray(pos_data_);
+        if (store_pos_) { ReleasePositions(); }
     }
     pos_data_ = pdata;
     calc_pos_ = true;
@@ -2828,7 +2833,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
     if (nullptr != pos_idx_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release1DArray(pos_idx_);
+        if (store_pos_) { ReleasePositions(); }
     }
     pos_idx_ = pdata;
     calc_pos_ = true;
@@ -3652,12 +3657,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!is_2draster && nullptr != raster_) {
         Release1DArray(raster_);
     }
-    if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
-    }
+    ReleasePositions();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
@@ -3770,6 +3770,15 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
 
 /************* Utility functions ***************/
 
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::ReleasePositions() {
+    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+}
+
 template <typename T, typename MASK_T>
 XY_COOR clsRasterData<T, MASK_T>::GetCoordinateByRowCol(const int row, const int col) {
     return XY_COOR(GetXllCenter() + col * GetCellWidth(),
@@ -4104,10 +4113,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         vector<int>(pos_rows).swap(pos_rows);
         vector<int>(pos_cols).swap(pos_cols);
 
-        store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        ReleasePositions();
+        store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4120,13 +4128,11 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        ReleasePositions();
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
         }
-        store_pos_ = false;
     }
 
     // Release the original raster values, and create new
-- 
2.43.0


From ba8bb87190e48c8947b60dfb84b44d16ca830faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 09/83] fix: coordinates in border cells of a raster are found,
 those outside are not

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 315bef6..5e59cf4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3801,7 +3801,7 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x >= x_max || x < x_min) || (y > y_max || y <= y_min)) {
         return ROW_COL(-1, -1);
     }
     return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
-- 
2.43.0


From 8139070a88496ca854a76327befbb66ca4609b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 10/83] fix: masking does not write the default value back into
 the source while it is being read

---
 src/data_raster.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5e59cf4..29d7f6e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3937,7 +3937,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         if (FloatEqual(tmp_value, no_data_value_)) {
             if (!FloatEqual(default_value_, no_data_value_)) {
                 tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
             }
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
@@ -3953,7 +3952,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From 88a27c54c6ee3d3d84febcd2d3065114c354cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 11/83] fix: values of a masked raster are rebuilt also if the
 size does not change

---
 src/data_raster.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 29d7f6e..6a924c7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4142,9 +4142,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         n_cells_ = ncols * nrows;
     }
     bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
-    }
     if (release_origin) {
         if (is_2draster && nullptr != raster_2d_) { // multiple layers
             Release2DArray(raster_2d_);
-- 
2.43.0


From f210574a0f2aa6cece073378cd32e769842ea02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 12/83] fix: a masked raster that keeps the mask's extent keeps
 its cells in place

---
 src/data_raster.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6a924c7..8f39b9a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4088,7 +4088,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             size_t idx = distance(vit, it);
             int tmpr = pos_rows.at(idx);
             int tmpc = pos_cols.at(idx);
-            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col
+            if ((upd_header_rowcol && (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col))
                 || FloatEqual(static_cast<T>(*it), no_data_value_)) {
                 it = values.erase(it);
                 if (is_2draster && n_lyrs_ > 1) {
@@ -4101,8 +4101,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 cit = pos_cols.begin();
                 vit = values.begin();
             } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
+                if (upd_header_rowcol) { // get new column and row number
+                    pos_rows[idx] -= min_row;
+                    pos_cols[idx] -= min_col;
+                }
                 ++it;
             }
         }
-- 
2.43.0


From 1ccf3facd08baa5eb95f53d31f979e0c2cabfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 13/83] fix: a raster without data at any mask cell is refused

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8f39b9a..6968f3a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3962,6 +3962,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    if (matched_count == 0 && (!use_mask_ext_ || FloatEqual(default_value_, no_data_value_))) { return -1; }
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From 02611f35cde122cf1256b68f3a0a16a186e7f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 14/83] fix: subsets inherited from a mask follow the cells of
 the masked raster

---
 src/data_raster.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6968f3a..f71041c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3573,6 +3573,9 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
                 SubsetPositions* tmp = new SubsetPositions(it->second, true);
                 tmp->n_lyrs = n_lyrs_;
+                // data of the mask's subset is not data of this raster
+                if (nullptr != tmp->data_) { Release1DArray(tmp->data_); }
+                if (nullptr != tmp->data2d_) { Release2DArray(tmp->data2d_); }
 #ifdef HAS_VARIADIC_TEMPLATES
                 subset_.emplace(it->first, tmp);
 #else
@@ -3979,6 +3982,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
             tmp->n_lyrs = n_lyrs_;
+            // data of the mask's subset is not data of this raster
+            if (nullptr != tmp->data_) { Release1DArray(tmp->data_); }
+            if (nullptr != tmp->data2d_) { Release2DArray(tmp->data2d_); }
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
 #else
@@ -4066,7 +4072,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
+    if (mask_has_subset && (upd_header_rowcol || recalc_pos)) {
         recalc_subset = true;
     }
     // Update row and col counts in header information firstly.
-- 
2.43.0


From deddc2f53d7f1015cd7ecb74c11319a698a621fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 15/83] fix: copies report positions, statistics and layers of
 their source

---
 src/data_raster.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f71041c..9812657 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3653,6 +3653,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (this == orgraster) { return; }
     // Release current data
     if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
         Release2DArray(raster_2d_);
@@ -3661,10 +3662,9 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
         Release1DArray(raster_);
     }
     ReleasePositions();
-    if (stats_calculated_) {
-        ReleaseStatsMap2D();
-        stats_calculated_ = false;
-    }
+    ReleaseStatsMap2D();
+    stats_calculated_ = false;
+    InitialStatsMap(stats_, stats_2d_);
     if (!subset_.empty()) {
         ReleaseSubset();
     }
@@ -3677,14 +3677,16 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    core_name_ = orgraster->GetCoreName();
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
         Initialize1DArray(n_cells_, raster_, orgraster->GetRasterDataPointer());
     }
-    if (calc_pos_) {
+    if (calc_pos_ && nullptr != orgraster->GetRasterPositionDataPointer()
+        && nullptr != orgraster->GetRasterPositionIndexPointer()) {
         store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, orgraster->GetRasterPositionDataPointer());
         Initialize1DArray(n_cells_, pos_idx_, orgraster->GetRasterPositionIndexPointer());
-- 
2.43.0


From cc788494377d2dff16b0dd490ecb2489afab4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 16/83] fix: rasters built from a mask and values use the
 positions of the mask

---
 src/data_raster.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9812657..5e6b7a7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2215,7 +2215,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true;
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2238,7 +2238,8 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
+    calc_pos_ = true;
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
@@ -2250,11 +2251,12 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
         return;
     }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
-    CopyStringMap(opts, options_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
+    CopyStringMap(opts, options_);
 }
 
 #ifdef USE_MONGODB
-- 
2.43.0


From c86a07b8fa61435fde2b0a603a9769be1eb11ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 17/83] fix: a copy keeps the mask extent flag of its source

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5e6b7a7..6029f90 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3680,6 +3680,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
     core_name_ = orgraster->GetCoreName();
+    use_mask_ext_ = orgraster->MaskExtented();
     is_2draster = orgraster->Is2DRaster();
     if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
-- 
2.43.0


From 5197add02e6b2b1694e3af2fe0ebbfaa599042e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 18/83] fix: a raster without valid cells is not reduced to an
 empty array

---
 src/data_raster.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6029f90..5916d87 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1901,8 +1901,9 @@ private:
      * \brief Calculate position index from rectangle grid values, if necessary.
      * To use this function, mask should be nullptr.
      *
+     * \return False if there is no valid cell; the raster is not changed then.
      */
-    void CalculateValidPositionsFromGridData();
+    bool CalculateValidPositionsFromGridData();
 
     /*!
      * \brief Prepare combination data array of subsets for output
@@ -2656,8 +2657,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int*** pos
             *positiondata = nullptr;
             return;
         }
-        CalculateValidPositionsFromGridData();
-        *datalength = n_cells_;
+        bool valid = CalculateValidPositionsFromGridData();
+        *datalength = valid ? n_cells_ : -1;
         *positiondata = pos_data_;
     }
 }
@@ -2674,8 +2675,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
             *positiondata = nullptr;
             return;
         }
-        CalculateValidPositionsFromGridData();
-        *datalength = n_cells_;
+        bool valid = CalculateValidPositionsFromGridData();
+        *datalength = valid ? n_cells_ : -1;
         *positiondata = pos_idx_;
     }
 }
@@ -2816,7 +2817,9 @@ bool clsRasterData<T, MASK_T>::SetCalcPositions() {
         return false;
     }
     calc_pos_ = true;
-    return MaskAndCalculateValidPosition() >= 0;
+    if (MaskAndCalculateValidPosition() >= 0) { return true; }
+    calc_pos_ = false;
+    return false;
 }
 
 template <typename T, typename MASK_T>
@@ -3816,7 +3819,7 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 }
 
 template <typename T, typename MASK_T>
-void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
+bool clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
     vector<T> values; // store 1st layer for both Rater1D and Raster2D
     vector<vector<T> > values_2d; // store layer 2~n
     vector<int> pos_rows;
@@ -3852,6 +3855,7 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
     }
     vector<int>(pos_rows).swap(pos_rows);
     vector<int>(pos_cols).swap(pos_cols);
+    if (values.empty()) { return false; }
     // reCreate raster data array
     n_cells_ = CVT_INT(values.size());
     UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
@@ -3883,6 +3887,7 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    return true;
 }
 
 template <typename T, typename MASK_T>
@@ -3891,8 +3896,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (nullptr == mask_) {
         if (calc_pos_) {
             if (nullptr == pos_data_ || nullptr == pos_idx_) {
-                CalculateValidPositionsFromGridData();
-                return 1;
+                return CalculateValidPositionsFromGridData() ? 1 : -1;
             }
             return 0;
         }
@@ -3910,6 +3914,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (nullptr == valid_pos) { return -1; }
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
-- 
2.43.0


From ec53742ce31408f6d325f1dcfd52fa3fe67abfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 19/83] fix: an ASCII grid with missing values, sizes or header
 entries is refused

---
 src/data_raster.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5916d87..fb1e74b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -235,6 +235,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     int rows = -1;
     int cols = -1;
     int vidx = 0;
+    int ncells = -1; // count of values to read, known since the first line of values
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
@@ -276,8 +277,13 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         else {
             if (rows < 0 || cols < 0) {
                 StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+                return false;
+            }
+            if (nullptr == values) {
+                if (rows == 0 || cols == 0 || rows > INT32_MAX / cols) { return false; }
+                ncells = rows * cols;
+                Initialize1DArray(ncells, values, nodata);
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
                 if (!str2value) {
@@ -285,7 +291,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
                     if (nullptr != values) { Release1DArray(values); }
                     return false;
                 }
-                if (vidx == rows * cols) {
+                if (vidx == ncells) {
                     StatusMessage("Error: Count of values MUST equal to rows * cols!");
                     if (nullptr != values) { Release1DArray(values); }
                     return false;
@@ -295,8 +301,10 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         }
     }
     if (rows < 0 || cols < 0 || cellsize < 0 ||
-        FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
-        StatusMessage("Error: Header information incomplete!");
+        FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT) ||
+        vidx != ncells || ncells != rows * cols) {
+        StatusMessage("Error: Header information or values incomplete!");
+        if (nullptr != values) { Release1DArray(values); }
         return false;
     }
     // default is center, if corner, then:
-- 
2.43.0


From f275c96673a8e6afe0f30ad93ba2646125cfc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 20/83] fix: a raster that cannot be read holds no data, and
 reading again replaces the data held

---
 src/data_raster.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fb1e74b..0706363 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1900,6 +1900,11 @@ private:
      */
     int MaskAndCalculateValidPosition();
 
+    /*!
+     * \brief Release all data held, i.e., values, positions, subsets, and statistics
+     */
+    void ReleaseRasterData();
+
     /*!
      * \brief Release position arrays if they are owned by this raster, and forget them in any case
      */
@@ -2307,6 +2312,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        const bool use_mask_ext /* = true */,
                                                        double default_value /* NODATA_VALUE */,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
+    ReleaseRasterData();
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 
     bool readflag = false;
@@ -2333,11 +2339,24 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
     if (readflag) {
         if (n_lyrs_ < 0) { n_lyrs_ = 1; }
         if (is_2draster) { is_2draster = false; }
-        return MaskAndCalculateValidPosition() >= 0;
+        if (MaskAndCalculateValidPosition() >= 0) { return true; }
     }
+    ReleaseRasterData();
     return false;
 }
 
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::ReleaseRasterData() {
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    ReleasePositions();
+    ReleaseSubset();
+    ReleaseStatsMap2D();
+    stats_calculated_ = false;
+    InitialStatsMap(stats_, stats_2d_);
+    n_cells_ = -1;
+}
+
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::~clsRasterData() {
     if (!core_name_.empty()) { StatusMessage(("Release raster: " + core_name_).c_str()); }
@@ -3442,6 +3461,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFile(const string& filename, const bool c
     if (!FileExists(filename)) { return false; }
     if (!initialized_) { InitializeRasterClass(); }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
+    n_lyrs_ = 1;
     return ConstructFromSingleFile(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 }
 
-- 
2.43.0


From 575e86095cf1acde36438cdba2ffb5d9da21d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 21/83] fix: an unreadable layer file fails the reading of all
 layers

---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0706363..29eb9bb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3503,19 +3503,24 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool readflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            readflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            readflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
             return false;
 #endif
         }
+        if (!readflag) {
+            ReleaseRasterData();
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
-- 
2.43.0


From ea9e5c3e2b6fc4210753dc16fc663b91fe86e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 22/83] fix: the header of a raster built from a mask and
 values has its own layer count

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 29eb9bb..ca99594 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2244,6 +2244,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
 }
-- 
2.43.0


From 671ed42533517e8fde13b007e251b73c1e4f7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 23/83] fix: arrays are created only from a positive size and
 given data

---
 src/utils_array.h | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..8fa0579 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,20 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
-    data = new(nothrow) T[row];
-    if (nullptr == data) {
-        delete[] data;
-        cout << "Bad memory allocated during 1D array initialization!" << endl;
+    if (row <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
         return false;
     }
     if (nullptr == init_data) {
         cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
         return false;
     }
+    data = new(nothrow) T[row];
+    if (nullptr == data) {
+        delete[] data;
+        cout << "Bad memory allocated during 1D array initialization!" << endl;
+        return false;
+    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
@@ -384,6 +388,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
@@ -391,17 +399,20 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         return false;
     }
     T* pool = nullptr;
-    pool = new(nothrow) T[row * col];
+    pool = new(nothrow) T[static_cast<size_t>(row) * col];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
     // Initialize the data pool
     T init = static_cast<T>(init_value);
 #pragma omp parallel for
-    for (int i = 0; i < row * col; i++) {
-        pool[i] = init;
+    for (int i = 0; i < row; i++) {
+        for (size_t j = 0; j < static_cast<size_t>(col); j++) {
+            pool[static_cast<size_t>(i) * col + j] = init;
+        }
     }
     // Now point the row pointers to the appropriate positions in the data pool
     for (int i = 0; i < row; ++i, pool += col) {
@@ -413,6 +424,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (row <= 0 || nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
@@ -427,7 +442,15 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     int idx = 0;
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     rows = CVT_INT(init_data[idx++]);
+    if (rows <= 0) {
+        cout << "The rows MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T2* [rows];
     if (nullptr == data) {
         delete[] data;
-- 
2.43.0


From e21a3158ee7cb5d6ffc529e2d79ea98fa0fcc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 24/83] fix: empty two-dimensional arrays can be copied, and a
 moved array is empty

---
 src/utils_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index 8fa0579..2227fad 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -280,6 +280,8 @@ public:
     }
 
     Array2D(const Array2D& rhs) : m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+        data_ptr = nullptr;
+        if (nullptr == rhs.data_ptr) { return; }
         data_ptr = create2DArray(m_rows, m_cols);
         std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[m_rows - 1][m_cols], &data_ptr[0][0]);
     }
@@ -289,6 +291,8 @@ public:
         m_rows = rhs.m_rows;
         m_cols = rhs.m_cols;
         rhs.data_ptr = nullptr;
+        rhs.m_rows = 0;
+        rhs.m_cols = 0;
     }
 
     Array2D& operator=(Array2D&& rhs) NOEXCEPT {
-- 
2.43.0


From 7eb17b835ad2247ad96ab8dc42a3db997ea30525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 25/83] fix: an all-zero raster written as GeoTIFF is not read
 back as no-data

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ca99594..51862f4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -804,6 +804,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (nullptr == po_dst_ds) { return false; }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
+    po_dst_band->SetNoDataValue(new_nodata); // before writing: GDAL leaves out blocks of zeros until it is known
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
@@ -819,7 +820,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-    po_dst_band->SetNoDataValue(new_nodata);
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From 7beb7320b0120e76c4c12b377c258e6ac3dec1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 26/83] fix: the input data type of a raster is that of the
 file read last

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 51862f4..b9f9098 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2090,6 +2090,7 @@ void clsRasterData<T, MASK_T>::InitializeReadFunction(const string& filename, co
     use_mask_ext_ = use_mask_ext;
     if (nullptr == mask_) { use_mask_ext_ = false; }
     default_value_ = default_value;
+    rs_type_ = RDT_Unknown;
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     core_name_ = GetCoreFileName(full_path_);
     CopyStringMap(opts, options_);
-- 
2.43.0


From 1a7800adebed54b5142a53609e5b1f74dff7745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 27/83] fix: switching to the mask's extent keeps the cells of
 a raster that is on its mask's grid

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b9f9098..4ce2b95 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2880,8 +2880,8 @@ bool clsRasterData<T, MASK_T>::SetUseMaskExt() {
     if (!ValidateRasterData()) return false;
     if (nullptr == mask_) return false;
     if (use_mask_ext_) return false; // already set as True, no need to recalculate.
-    use_mask_ext_ = true;
-    return MaskAndCalculateValidPosition() >= 0;
+    use_mask_ext_ = true; // rasters that refer to a mask always have its rows, columns and positions
+    return true;
 }
 
 /************* Output to file functions ***************/
-- 
2.43.0


From ce38238a34a4c9d745922e7267e01d121e713a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 28/83] fix: subsets of a raster follow its cells when only the
 valid cells are kept

---
 src/data_raster.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4ce2b95..27a5b22 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3921,6 +3921,31 @@ bool clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_data_[i][1] = pos_cols.at(i);
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
+    // The cells of subsets were numbered on the full-size grid
+    for (auto it = subset_.begin(); it != subset_.end();) {
+        SubsetPositions* sub = it->second;
+        int count = 0;
+        for (int i = 0; i < sub->n_cells; i++) {
+            int* found = std::lower_bound(pos_idx_, pos_idx_ + n_cells_, sub->global_[i]);
+            if (found == pos_idx_ + n_cells_ || *found != sub->global_[i]) { continue; } // not valid anymore
+            sub->global_[count] = CVT_INT(found - pos_idx_);
+            sub->local_pos_[count][0] = sub->local_pos_[i][0];
+            sub->local_pos_[count][1] = sub->local_pos_[i][1];
+            sub->local_posidx_[count] = sub->local_posidx_[i];
+            if (nullptr != sub->data_) { sub->data_[count] = sub->data_[i]; }
+            if (nullptr != sub->data2d_) {
+                for (int lyr = 0; lyr < sub->n_lyrs; lyr++) { sub->data2d_[count][lyr] = sub->data2d_[i][lyr]; }
+            }
+            count++;
+        }
+        sub->n_cells = count;
+        if (count == 0) {
+            delete sub;
+            subset_.erase(it++);
+        } else {
+            ++it;
+        }
+    }
     calc_pos_ = true;
     return true;
 }
-- 
2.43.0


From 447a22ea3e7cbb5bd3cdc9a4ce102ecff4956771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 29/83] fix: data set to a subset replaces data of another
 layer count

---
 src/data_raster.cpp | 4 +++-
 src/data_raster.hpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index b7bcb28..469b51a 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -301,10 +301,12 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
     int nfull = nrows * ncols;
     int db_ncells = CVT_INT(header_dbl.at(HEADER_RS_CELLSNUM));
     int db_nlyrs = CVT_INT(header_dbl.at(HEADER_RS_LAYERS));
-    if ((nfull != db_ncells && n_cells != db_ncells) || db_nlyrs < 0) {
+    if ((nfull != db_ncells && n_cells != db_ncells) || db_nlyrs <= 0) {
         Release1DArray(dbdata);
         return false;
     }
+    if (nullptr != data2d_ && (db_nlyrs == 1 || db_nlyrs != n_lyrs)) { Release2DArray(data2d_); }
+    if (nullptr != data_ && db_nlyrs > 1) { Release1DArray(data_); }
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 27a5b22..d0ecb06 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1113,6 +1113,7 @@ public:
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
+        if (nullptr != data2d_) { Release2DArray(data2d_); }
         if (1 != n_lyrs) { n_lyrs = 1; }
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
@@ -1127,6 +1128,9 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
+        if (lyr <= 0) { return false; }
+        if (nullptr != data_) { Release1DArray(data_); }
+        if (lyr != n_lyrs && nullptr != data2d_) { Release2DArray(data2d_); }
         if (lyr != n_lyrs) { n_lyrs = lyr; }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
-- 
2.43.0


From c0db8643339de47ceca9dea0b1fb9472fde81f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 30/83] fix: a shallow copy of a subset does not release the
 data of its source

---
 src/data_raster.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 469b51a..1f3fcab 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -268,8 +268,9 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+        // data is always owned
+        if (nullptr != src->data_) { Initialize1DArray(n_cells, data_, src->data_); }
+        if (nullptr != src->data2d_) { Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_); }
     }
 }
 
-- 
2.43.0


From 381d66105ee981dcbb13daad66759693ecab4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 31/83] fix: ASCII grids keep georeference and no-data cells

---
 src/data_raster.cpp |  3 ++-
 src/data_raster.hpp | 28 ++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 1f3fcab..4df1536 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -204,10 +204,11 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
+    raster_file << std::setprecision(15); // six digits are too few for projected coordinates
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_NODATA << " " << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
     return true;
 }
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d0ecb06..0612c89 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -329,6 +329,18 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
  */
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header);
 
+/*!
+ * \brief Write a cell value of ASC file as number, no-data exactly as in the header
+ */
+template <typename T>
+void WriteAscValue(std::ostream& os, const T value, const double nodata) {
+    if (FloatEqual(value, nodata)) {
+        os << setprecision(15) << nodata << " ";
+    } else {
+        os << setprecision(6) << +value << " ";
+    }
+}
+
 /*!
  * \brief Write raster data as a single ASC file. If the file exists, delete it first.
  * \param[in] filename ASC full file path
@@ -350,7 +362,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            WriteAscValue(raster_file, values[i * cols + j], header.at(HEADER_RS_NODATA));
         }
         raster_file << endl;
     }
@@ -3210,13 +3222,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], headers_.at(HEADER_RS_NODATA));
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], headers_.at(HEADER_RS_NODATA));
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { WriteAscValue(raster_file, no_data_value_, headers_.at(HEADER_RS_NODATA)); }
                 }
                 raster_file << endl;
             }
@@ -3234,15 +3246,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    WriteAscValue(raster_file, raster_[index], headers_.at(HEADER_RS_NODATA));
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        WriteAscValue(raster_file, raster_[index], headers_.at(HEADER_RS_NODATA));
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { WriteAscValue(raster_file, no_data_value_, headers_.at(HEADER_RS_NODATA)); }
+                } else { WriteAscValue(raster_file, no_data_value_, headers_.at(HEADER_RS_NODATA)); }
             }
             raster_file << endl;
         }
-- 
2.43.0


From 26ddb105265cc64559a84db11c44682efc0a0a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 32/83] fix: a cell with data never becomes no-data when
 written as GeoTIFF of a smaller type

---
 src/data_raster.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0612c89..90a2040 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -800,6 +800,14 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
             for (int i = 0; i < n_cols * n_rows; i++) values_double[i] = static_cast<double>(values[i]);
         }
     }
+    if (recreate_flag && outtype != RDT_Float && outtype != RDT_Double) {
+        for (int i = 0; i < n_cols * n_rows; i++) { // integers hold the whole part
+            if (!FloatEqual(values[i], old_nodata) && FloatEqual(std::trunc(CVT_DBL(values[i])), new_nodata)) {
+                convert_permit = false;
+                break;
+            }
+        }
+    }
     if ((outtype == RDT_Unknown || (recreate_flag && nullptr == new_values))
         || (!convert_permit)) {
         cout << "Error: The specific raster output data type is not allowed!\n";
-- 
2.43.0


From 139f4bf9ba55b084a2d423deac0a3b0aac866274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 33/83] fix: subsets are written also from original data
 combined, by one-layer 2D rasters and before data is set

---
 src/data_raster.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 90a2040..79be558 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1182,7 +1182,7 @@ public:
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-                if (n_lyrs > 1 && nullptr != data2d_) {
+                if (nullptr != data2d_) {
                     tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
@@ -3005,7 +3005,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
         if (!it->second->usable) { continue; }
         if (!(nullptr != it->second->data_    // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
-            || !recls.empty())) {             // or reclassification map specified
+            || out_origin || !recls.empty())) { // or original data output or reclassification map specified
             return false;
         }
         if (lyrs_subset < 0) { lyrs_subset = it->second->n_lyrs; }
@@ -3052,7 +3052,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
+                int tmprc = nullptr != pos_idx_ ? pos_idx_[gidx] : gidx; // or full-size
                 if (!include_nodata) { tmprc = gidx; }
                 if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
@@ -3060,7 +3060,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     if (out_origin) {
                         if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                         else if (nullptr != raster_2d_) {
-                            recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                            recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                         }
                     }
                     if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3071,7 +3071,13 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
-                else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
+                else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
@@ -3115,6 +3121,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
+        if (lyrs < 0 && lyr_recls > 0) { lyrs = lyr_recls; }
     }
     if (lyrs < 0) {
         StatusMessage("Error: Cannot determine valid layer count!");
@@ -3140,7 +3147,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 if (out_origin) {
                     if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                     else if (nullptr != raster_2d_) {
-                        recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                        recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                     }
                 }
                 if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3148,13 +3155,13 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
-            else if (out_origin && lyrs == 1 && nullptr != raster_) {
+            else if (out_origin && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
-            else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
+            else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
             }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
-- 
2.43.0


From 7fd3c34093fdf7e1472088ab7c03b806ce3ebbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 34/83] fix: integer GeoTIFF files get a no-data value their
 type can hold

---
 src/data_raster.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 79be558..d0a673d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -617,6 +617,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     bool recreate_flag = true; // recreate data array because inconsistent of datatypes
     double old_nodata = header.at(HEADER_RS_NODATA);
     bool change_nodata = false;
+    bool frac_nodata = !FloatEqual(std::trunc(old_nodata), old_nodata);
     double new_nodata = old_nodata; // change nodata when convert signed datatype to unsigned
     bool convert_permit = true; // DO NOT allow negative cell values be converted to unsigned datatype
     RasterDataType tmptype = TypeToRasterDataType(typeid(T));
@@ -632,7 +633,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
             new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
             unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
+            if (frac_nodata || old_nodata < 0 || old_nodata > UINT8_MAX) {
                 new_nodata = UINT8_MAX;
                 change_nodata = true;
             }
@@ -655,7 +656,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
 #endif
             new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
             signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
+            if (frac_nodata || old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
                 new_nodata = INT8_MIN;
                 change_nodata = true;
             }
@@ -674,7 +675,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt16) { // [0, 65535]
             new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
             vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
+            if (frac_nodata || old_nodata < 0 || old_nodata > UINT16_MAX) {
                 new_nodata = UINT16_MAX;
                 change_nodata = true;
             }
@@ -693,7 +694,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int16) { // [-32768, 32767]
             new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
             vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
+            if (frac_nodata || old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
                 new_nodata = INT16_MIN;
                 change_nodata = true;
             }
@@ -712,7 +713,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
             new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
             vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
+            if (frac_nodata || old_nodata < 0 || old_nodata > UINT32_MAX) {
                 new_nodata = UINT32_MAX;
                 change_nodata = true;
             }
@@ -731,7 +732,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
             new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
             vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
+            if (frac_nodata || old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
                 new_nodata = INT32_MIN;
                 change_nodata = true;
             }
@@ -751,7 +752,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (frac_nodata || old_nodata < 0 || old_nodata > UINT64_MAX) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -770,7 +771,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (frac_nodata || old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
-- 
2.43.0


From 0c759990b93ea6a4d6c470b946ce4bf76220bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 35/83] fix: loading a text file that cannot be read ends and
 reports failure

---
 src/utils_filesystem.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..643afc1 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -378,18 +378,14 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = myfile.eof(); // otherwise reading stopped before the end
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From a080918d04d8b81f669bea65d895b91b48e1409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 36/83] fix: GeoTIFF no-data values and limits are right for
 the types at the ends of the range

---
 src/data_raster.hpp | 67 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d0a673d..050ec2b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <iomanip>
 #include <typeinfo>
+#include <limits>
 #include <cassert>
 // include openmp if supported
 #ifdef SUPPORT_OMP
@@ -599,6 +600,15 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief NoData value of a raster from a header value, the largest 64-bit integers are rounded up as double
+ */
+template <typename T>
+T NoDataFromDouble(const double nodata) {
+    if (nodata == CVT_DBL(std::numeric_limits<T>::max())) { return std::numeric_limits<T>::max(); }
+    return static_cast<T>(nodata);
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -644,7 +654,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < 0 || static_cast<long double>(values[i]) > UINT8_MAX) illegal_count += 1;
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -667,7 +677,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if (static_cast<long double>(values[i]) < INT8_MIN || static_cast<long double>(values[i]) > INT8_MAX) { illegal_count += 1; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -686,7 +696,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < 0 || static_cast<long double>(values[i]) > UINT16_MAX) illegal_count += 1;
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -705,7 +715,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < INT16_MIN || static_cast<long double>(values[i]) > INT16_MAX) illegal_count += 1;
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -724,7 +734,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < 0 || static_cast<long double>(values[i]) > UINT32_MAX) illegal_count += 1;
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -743,7 +753,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < INT32_MIN || static_cast<long double>(values[i]) > INT32_MAX) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -763,7 +773,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < 0 || static_cast<long double>(values[i]) > UINT64_MAX) illegal_count += 1;
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -782,7 +792,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if (static_cast<long double>(values[i]) < INT64_MIN || static_cast<long double>(values[i]) > INT64_MAX) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -791,8 +801,23 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Float) {
             new_values = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
             float* values_float = static_cast<float*>(new_values);
-#pragma omp parallel for
-            for (int i = 0; i < n_cols * n_rows; i++) values_float[i] = static_cast<float>(values[i]);
+            if (std::isfinite(old_nodata) && Abs(old_nodata) > MAXIMUMFLOAT) {
+                new_nodata = -MAXIMUMFLOAT;
+                change_nodata = true;
+            }
+            int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+            for (int i = 0; i < n_cols * n_rows; i++) {
+                if (FloatEqual(values[i], old_nodata) && change_nodata) {
+                    values_float[i] = -MAXIMUMFLOAT;
+                    continue;
+                }
+                if (std::isfinite(CVT_DBL(values[i])) && Abs(CVT_DBL(values[i])) > MAXIMUMFLOAT) illegal_count += 1;
+                values_float[i] = static_cast<float>(values[i]);
+                if (!FloatEqual(values[i], old_nodata)
+                    && FloatEqual(values_float[i], static_cast<float>(new_nodata))) illegal_count += 1;
+            }
+            if (illegal_count > 0) convert_permit = false;
         }
         else if (outtype == RDT_Double) {
             new_values = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
@@ -825,7 +850,19 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (nullptr == po_dst_ds) { return false; }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
-    po_dst_band->SetNoDataValue(new_nodata); // before writing: GDAL leaves out blocks of zeros until it is known
+    // before writing: GDAL leaves out blocks of zeros until it is known
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    if (outtype == RDT_Int64) { // large numbers are lost if given as double
+        po_dst_band->SetNoDataValueAsInt64(new_nodata >= 9223372036854775808. ? INT64_MAX
+                                                                              : static_cast<vint64_t>(new_nodata));
+    }
+    else if (outtype == RDT_UInt64 && new_nodata >= 0) {
+        po_dst_band->SetNoDataValueAsUInt64(new_nodata >= 18446744073709551616. ? UINT64_MAX
+                                                                                : static_cast<vuint64_t>(new_nodata));
+    }
+    else
+#endif
+    { po_dst_band->SetNoDataValue(new_nodata); }
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
@@ -2081,7 +2118,7 @@ void clsRasterData<T, MASK_T>::InitializeRasterClass(bool is_2d /* = false */) {
     n_cells_ = -1;
     rs_type_ = RDT_Unknown;
     rs_type_out_ = RDT_Unknown;
-    no_data_value_ = DefaultNoDataByType(TypeToRasterDataType(typeid(T)));
+    no_data_value_ = NoDataFromDouble<T>(DefaultNoDataByType(TypeToRasterDataType(typeid(T))));
     //no_data_value_ = static_cast<T>(NODATA_VALUE); // Be careful of unsigned data type!
     default_value_ = NODATA_VALUE;
     raster_ = nullptr;
@@ -2355,7 +2392,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 #endif /* USE_GDAL */
     }
     // After read raster data from ASCII file or GeoTiff.
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    no_data_value_ = NoDataFromDouble<T>(headers_.at(HEADER_RS_NODATA));
     UpdateStrHeader(options_, HEADER_RS_SRS, srs);
     // if not specified, set output data type the same as input
     if (rs_type_out_ == 0) {
@@ -2840,7 +2877,7 @@ void clsRasterData<T, MASK_T>::SetHeader(const STRDBL_MAP& refers) {
     it = headers_.find(HEADER_RS_LAYERS);
     if (it != headers_.end()) { n_lyrs_ = CVT_INT(it->second); }
     it = headers_.find(HEADER_RS_NODATA);
-    if (it != headers_.end()) { no_data_value_ = static_cast<T>(it->second); }
+    if (it != headers_.end()) { no_data_value_ = NoDataFromDouble<T>(it->second); }
 }
 
 
@@ -3628,7 +3665,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     n_lyrs_ = CVT_INT(headers_.at(HEADER_RS_LAYERS));
     // if (n_rows < 0 || n_cols < 0 || n_lyrs_ < 0) { return false; } // Needless
     int fullsize = n_rows * n_cols;
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    no_data_value_ = NoDataFromDouble<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
     if (include_nodata && n_cells_ != fullsize) { return false; }
-- 
2.43.0


From ee44210a92c87a2c98d2e91e957fb6cc4411b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 37/83] fix: splitting by white space does not repeat the last
 word

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..ce8f227 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 0f478bfd31b307e7b5464337ea53e9e34785eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 38/83] fix: an empty text is no number

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index ce8f227..510f2b5 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -303,14 +303,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From b56d354cc7963fc33c69333e53eab784eaf28060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 39/83] fix: a field that is no number makes splitting for
 values fail

---
 src/utils_string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils_string.h b/src/utils_string.h
index 1fe0910..aaaa531 100644
--- a/src/utils_string.h
+++ b/src/utils_string.h
@@ -365,7 +365,9 @@ bool SplitStringForValues(const string& items, const char delimiter, vector<T>&
         if ((*it).find_first_of("0123456789") == string::npos) {
             continue;
         }
-        values.emplace_back(static_cast<T>(strtod((*it).c_str(), &end)));
+        double value = strtod((*it).c_str(), &end);
+        if (string(end).find_first_not_of(" \n\r\t") != string::npos) { continue; }
+        values.emplace_back(static_cast<T>(value));
     }
     vector<T>(values).swap(values);
     return value_strs.size() == values.size();
-- 
2.43.0


From 1b36ce75c4db05c7263978e7836e75ce19720653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 40/83] fix: an IP address has exactly four numbers of up to
 three digits

---
 src/basic.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..b6b66d9 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -63,7 +63,17 @@ bool IsIpAddress(const char* ip) {
             //cout << "IP Address format is not correct!" << endl;
             break;
         }
+        int dots = 0;
+        int digits = 0;
         for (const char* p_char = ip; *p_char != 0; p_char++) {
+            if (*p_char == '.') {
+                dots += 1;
+                digits = 0;
+            } else { digits += 1; }
+            if (dots > 3 || digits > 3) {
+                rv = false;
+                break;
+            }
             if (*p_char != '.' && (*p_char < '0' || *p_char > '9')) {
                 rv = false;
                 //cout << "IP Address format is not correct!" << endl;
-- 
2.43.0


From b9c6e302e1caca2a0f3d8d25549cb54030b4eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 41/83] fix: the suffix of a file is that of its name, not of
 its directory

---
 src/utils_filesystem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 643afc1..2d7a165 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -310,11 +310,10 @@ string GetCoreFileName(string const& full_filename) {
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
-    }
-    return "";
+    string::size_type sep = abspath.find_last_of(SEP);
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos || (sep != string::npos && dot < sep)) { return ""; }
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From bfd28229254c1d4189af9e083f56cdd6c63462c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 42/83] fix: finding files of a kind compares whole suffixes

---
 src/utils_filesystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 2d7a165..9c3e60c 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -104,8 +104,9 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             // cout << filename<<endl;
             string ext = GetSuffix(filename);
             // cout << ext << "\t" << expression << endl;
-            string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
+            string strexpression = string(expression); // "tif", ".tif" or "*.tif"
+            strexpression = strexpression.substr(strexpression.find_last_of('.') + 1);
+            if ((utils_string::StringMatch(ext, strexpression) && !ext.empty())
                 || utils_string::StringMatch(expression, ".*")
                 || utils_string::StringMatch(expression, "*.*")) {
                 std::ostringstream oss;
-- 
2.43.0


From 697f9bb9c66d15620edd7779e2dd4e0aea72fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 43/83] fix: deleting a directory reports whether it is gone

---
 src/utils_filesystem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 9c3e60c..17854d3 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -228,7 +228,7 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     dir = opendir(abspath.c_str());
     if (dir == nullptr) {
         perror("Error opendir()");
-        return true;
+        return false;
     }
 
     while ((entry = readdir(dir)) != nullptr) {
@@ -243,8 +243,7 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     }
     closedir(dir);
     printf("Deleting: %s\n", abspath.c_str());
-    remove(abspath.c_str());
-    return true;
+    return remove(abspath.c_str()) == 0 || !del_subdirs;
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From a097fdfc22a6ba10a3d4567af644b14b877da8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 44/83] fix: files of a kind are found by their own names, not
 by what a link of that name points to

---
 src/utils_filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 17854d3..5318b46 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -102,7 +102,8 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
 
             string filename(h_file->d_name);
             // cout << filename<<endl;
-            string ext = GetSuffix(filename);
+            string::size_type dot = filename.find_last_of('.');
+            string ext = dot == string::npos ? "" : filename.substr(dot + 1);
             // cout << ext << "\t" << expression << endl;
             string strexpression = string(expression); // "tif", ".tif" or "*.tif"
             strexpression = strexpression.substr(strexpression.find_last_of('.') + 1);
-- 
2.43.0


From d388d904eb843e6b140a7674535dbfdd160fb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 45/83] fix: finding files in and cleaning a directory that
 cannot be listed fails

---
 src/utils_filesystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 5318b46..0d25496 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -117,6 +117,8 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             }
         }
         closedir(dir);
+    } else {
+        return -1;
     }
 #endif /* WINDOWS */
     return 0;
@@ -155,8 +157,7 @@ bool CleanDirectory(const string& dirpath) {
         if (DirectoryExists(abspath)) {
             /// empty the directory
             vector<string> existed_files;
-            FindFiles(abspath.c_str(), "*.*", existed_files);
-            int err_count = 0;
+            int err_count = FindFiles(abspath.c_str(), "*.*", existed_files) == 0 ? 0 : 1;
             for (auto it = existed_files.begin(); it != existed_files.end(); ++it) {
                 if (remove((*it).c_str()) < 0) { err_count += 1; }
             }
-- 
2.43.0


From dfb372759c6953213a788fa18a604744e34e5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 46/83] fix: releasing several two-dimensional arrays together
 compiles

---
 src/utils_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 2227fad..f4eb495 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -518,10 +518,10 @@ template <typename T>
 void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From 1f3ff73509b1bc92c647a73af28e37d7d6f5eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 47/83] fix: a two-dimensional array without memory for its
 values is reported

---
 src/utils_array.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f4eb495..cd30079 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -463,7 +463,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     T2* pool = nullptr;
     // Get actual data length of init_data, excluding the first element which is 'rows'
-    int* cols = new int[rows];
+    int* cols = new(nothrow) int[rows];
+    if (nullptr == cols) {
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     max_cols = -1;
     for (int i = 0; i < rows; i++) {
         cols[i] = CVT_INT(init_data[idx]);
@@ -472,7 +477,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     int length = idx - 1;
     // New a 1d array to store data
-    Initialize1DArray(length, pool, init_data + 1);
+    if (!Initialize1DArray(length, pool, init_data + 1)) {
+        delete[] cols;
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     // Now point the row pointers to the appropriate positions in the data pool
     int pos = 0;
     for (int i = 0; i < rows; ++i) {
-- 
2.43.0


From 93eef162d1ffb34af1ca798cd94dfe2ca216325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 48/83] fix: statistics of values beyond the range of float
 have their own maximum and minimum

---
 src/utils_math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index b6885ba..c3d7808 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -389,8 +389,8 @@ void BasicStatistics(const T* values, const int num, double** derivedvalues,
     double std = 0.;
     for (int i = 0; i < num; i++) {
         if (FloatEqual(values[i], exclude)) continue;
-        if (maxv < values[i]) maxv = values[i];
-        if (minv > values[i]) minv = values[i];
+        if (0 == validnum || maxv < values[i]) maxv = values[i];
+        if (0 == validnum || minv > values[i]) minv = values[i];
         validnum += 1;
         sumv += values[i];
     }
@@ -431,8 +431,8 @@ void BasicStatistics(const T*const * values, const int num, const int lyrs,
     for (int i = 0; i < num; i++) {
         for (int j = 0; j < lyrs; j++) {
             if (FloatEqual(values[i][j], exclude)) continue;
-            if (tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
-            if (tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
+            if (0. == tmpstats[0][j] || tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
+            if (0. == tmpstats[0][j] || tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
             tmpstats[0][j] += 1;
             sumv[j] += values[i][j];
         }
-- 
2.43.0


From a943e61c9814f8888998164d7a9ffa9274764da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 49/83] fix: a number is true when it is not zero

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..7ff01cf 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -539,11 +539,13 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
+    } else if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool;
     } else {
         StatusMessage("Failed in get Boolean value.");
         return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    return !utils_math::FloatEqual(fltvalue, 0.f);
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
-- 
2.43.0


From d177bab0b7985e9e11fac1c96bd5703dbd68b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 50/83] fix: instants of documents beyond 2038 and of the first
 second of 1970

---
 src/db_mongoc.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7ff01cf..2ba05f3 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -560,10 +560,7 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        return CVT_TIMET(vv->value.v_datetime / 1000); // milliseconds to seconds
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From 0e479804e6d9d6908ed7b18245d7f16c0bbc7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 51/83] fix: whole numbers beyond 32 bits in metadata

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2ba05f3..adc3b48 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -491,7 +491,7 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0 && std::fabs(dbl_value) < 2147483648.0) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From 9b53591e8c01bf80bd7b1dc47919bb37297b3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 52/83] fix: metadata of a file stored without any

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index adc3b48..507cc24 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -403,7 +403,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = NULL == bmata ? bson_new() : bson_copy(bmata);
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
-- 
2.43.0


From 90d2f8e7101e03ba2b61079e1cc36833233e43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 53/83] fix: names of no store

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 507cc24..b849006 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -373,6 +373,7 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-- 
2.43.0


From 54ba48fce540f80a0cc4770d6d7794c5aa234d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 54/83] fix: names of GridFS stores that contain dots

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b849006..407c9d4 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -238,7 +238,7 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
                 string realname;
                 // Refers to https://stackoverflow.com/a/18703743/4837280
                 std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
+                              [&](const std::string &piece){ realname += (realname.empty() ? "" : ".") + piece; });
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
-- 
2.43.0


From 33a8eb5a718f3f95ea5721be3f011a1a0719687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 55/83] fix: buffer of a GridFS file is released by delete[],
 and none is given if reading fails

---
 src/db_mongoc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 407c9d4..f7c1476 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -428,7 +428,7 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         return false;
     }
     datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    databuf = new char[datalength];
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
@@ -437,6 +437,10 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
+    if (flag < 0) {
+        delete[] databuf;
+        databuf = NULL;
+    }
     return flag >= 0;
 }
 
-- 
2.43.0


From 39f2b5c7796ba104cb41a48941531d2b535f050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 56/83] fix: a file that could not be removed is reported

---
 src/db_mongoc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index f7c1476..23a14e4 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -350,6 +350,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     // }
     mongoc_gridfs_file_list_t* filelist;
     mongoc_gridfs_file_t* gfile = NULL;
+    bool removed = true;
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
     while ((gfile = mongoc_gridfs_file_list_next(filelist))) {
         const bson_value_t* tmpid = mongoc_gridfs_file_get_id(gfile);
@@ -358,15 +359,19 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         string strid = charid;
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+            removed = false;
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
         }
         mongoc_gridfs_file_destroy(gfile);
     }
-
+    if (mongoc_gridfs_file_list_error(filelist, &err)) {
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+        removed = false;
+    }
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
-- 
2.43.0


From 0d698630bef931bd755d816dc6a2047bfbe6a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 57/83] fix: a failed write leaves no part of the file

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 23a14e4..c9f0d32 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -470,11 +470,13 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+    bool gfilestatus = writesize != -1 && mongoc_gridfs_file_save(gfile) && // Returns true if successful
             !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
     if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
+        mongoc_gridfs_file_error(gfile, &gfileerr);
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
                           ". ERROR: " + gfileerr.message).c_str());
+        mongoc_gridfs_file_remove(gfile, &gfileerr); // it may have been stored all the same, or in part
     }
     mongoc_gridfs_file_destroy(gfile);
     return gfilestatus;
-- 
2.43.0


From c60cf9011501bb9048d35dadffe2769e0618967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 58/83] fix: an array is not stored beside the one it should
 replace

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 050ec2b..d803772 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1067,7 +1067,7 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
+    if (!gfs->RemoveFile(filename, nullptr, curopts)) { return false; }
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
-- 
2.43.0


From 421d2654c2e4e0aa5e07310847f6abe8d97f2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 59/83] fix: whole header values beyond 32 bits in GridFS
 metadata

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d803772..1dd75d3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1072,7 +1072,7 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+            && std::modf(iter->second, &intpart) == 0.0 && std::fabs(iter->second) < 2147483648.0) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
-- 
2.43.0


From 2bfac8c054b23b40c2a3028e778f1961e1f1e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 60/83] fix: 64-bit and unknown data types of GridFS rasters

---
 src/data_raster.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1dd75d3..4e15313 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1131,8 +1131,22 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             Initialize1DArray(datalength, newdata, values);
             buf = reinterpret_cast<char*>(newdata);
             buflength = datalength * sizeof(double);
+        } else if (opt_type == RDT_UInt64) {
+            vuint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vuint64_t);
+        } else if (opt_type == RDT_Int64) {
+            vint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vint64_t);
         }
     }
+    if (nullptr == buf) { // unknown data type, or nothing to store
+        bson_destroy(&p);
+        return false;
+    }
     // Add user-specific key-values into metadata
     AppendStringOptionsToBson(&p, curopts);
 
-- 
2.43.0


From 20ce8b0eb4e52610a4921f768ac76ba936c44828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 61/83] fix: rasters of no stated type are stored in their own
 type

---
 src/data_raster.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4e15313..33d135f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3397,8 +3397,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
     CopyStringMap(opts, options_); // Update metadata
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+    if (RDT_Unknown == RasterDataTypeInOptionals(options_)) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
@@ -3486,8 +3485,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
     else {
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+    if (RDT_Unknown == RasterDataTypeInOptionals(options_)) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
-- 
2.43.0


From 91090d9bddc3e9fb95309625d1fd4f0cd64faf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 62/83] fix: rasters without data or without valid cells are
 not stored in GridFS

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 33d135f..b0e88d9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3396,6 +3396,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
+    if (!ValidateRasterData()) { return false; }
     CopyStringMap(opts, options_); // Update metadata
     if (RDT_Unknown == RasterDataTypeInOptionals(options_)) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
@@ -3411,7 +3412,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
         GetRasterPositionData(&cnt, &pos);
     }
     if ((nullptr == pos_data_ || nullptr == pos_idx_) && !include_nodata) {
-        SetCalcPositions();
+        if (!SetCalcPositions()) { return false; } // no valid cells
         GetRasterPositionData(&cnt, &pos);
     }
     int n_rows = GetRows();
-- 
2.43.0


From d8669ba112335da213bd5e8fe6f26f928a68dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 63/83] fix: output data type of rasters read from GridFS

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b0e88d9..383ae14 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3670,6 +3670,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         CopyHeader(header_dbl, headers_);
     }
     CopyStringMap(header_str, options_);
+    if (RDT_Unknown == rs_type_out_) { rs_type_out_ = RasterDataTypeInOptionals(options_); }
 
     bool include_nodata = !StringMatch(options_.at(HEADER_INC_NODATA), "FALSE");
 
-- 
2.43.0


From aeb81920d57f43ec829cd43ab91d34a29caec2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 64/83] fix: reading valid cells stored in GridFS over a mask

---
 src/data_raster.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 383ae14..8010978 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3682,12 +3682,23 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     no_data_value_ = NoDataFromDouble<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
-    if (include_nodata && n_cells_ != fullsize) { return false; }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    if (include_nodata && n_cells_ != fullsize) {
+        Release1DArray(dbdata);
+        return false;
+    }
+    if (!include_nodata) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    int mask_ncells = -1;
+    int** mask_pos = nullptr;
+    if (nullptr != mask_ && !include_nodata && use_mask_ext_
+        && mask_->GetRows() == n_rows && mask_->GetCols() == n_cols) {
+        if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
+        mask_->GetRasterPositionData(&mask_ncells, &mask_pos);
+    }
+    if (nullptr != mask_pos && n_cells_ == mask_ncells) {
+        ReleasePositions();
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
@@ -3709,7 +3720,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
+    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) {
+        Release1DArray(dbdata);
+        return false;
+    }
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
@@ -3743,8 +3757,9 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         Release1DArray(dbdata);
     }
     CheckDefaultValue();
-    if (include_nodata && mask_pos_subset) {
-        return MaskAndCalculateValidPosition() >= 0;
+    if (include_nodata && mask_pos_subset && MaskAndCalculateValidPosition() < 0) {
+        ReleaseRasterData(); // a refused read leaves no unmasked data behind
+        return false;
     }
     return true;
 }
-- 
2.43.0


From 4dd0bec583e663767bf4b3bf1cdf59d850459cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 65/83] fix: reading a raster from GridFS again replaces its
 data

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8010978..6ab5f70 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3649,6 +3649,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     T* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
+    if (nullptr != raster_ || nullptr != raster_2d_) { // read again, the former data are replaced
+        ReleaseRasterData();
+        headers_ = InitialHeader();
+    }
     STRING_MAP opts_upd;
     CopyStringMap(opts, opts_upd);
     if (opts.empty() || opts.count(HEADER_INC_NODATA) < 1) { // GFS file include nodata by default
-- 
2.43.0


From b1cdab672fc3d9d335d110217536394ad3fd0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 66/83] fix: GridFS files whose length does not fit the stated
 cells

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6ab5f70..8c42ef9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -976,6 +976,10 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
     int value_count = n_cells * n_lyrs;
+    if (value_count < 1 || length % value_count != 0) { // length is inconsistent with metadata
+        delete[] buf;
+        return false;
+    }
     size_t size_dtype = length / value_count;
 
     RasterDataType rstype = RDT_Unknown;
-- 
2.43.0


From b00677c83084f8656899c00bcfca2273ce3e1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 67/83] fix: report failed output of subsets to GridFS

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8c42ef9..16c9a51 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3505,6 +3505,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int sublen;
         bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
                                           out_origin, include_nodata, recls, default_value);
+        if (!flag) { return false; }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
@@ -3531,10 +3532,10 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_) && flag;
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From 9ec05e9e44e26a7325567c886735cd854cae75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 68/83] fix: mask_rasterio run with a configuration file as its
 only argument

---
 apps/mask_rasterio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..4966305 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -214,8 +214,6 @@ int main(const int argc, const char** argv) {
         if (tmp_dbl_flag) { continue; }
         arg_sep.push_back(idx);
     }
-    arg_sep.push_back(argc);
-
     map<string, vector<string> > key_args;
     if (arg_sep.empty()) {
         if (config_path.empty()) {
@@ -229,6 +227,7 @@ int main(const int argc, const char** argv) {
         }
     }
     else {
+        arg_sep.push_back(argc);
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
             if (tmpargs.empty()) { continue; }
-- 
2.43.0


From df7802e2091b504dbea9dd8209f7c91021ce41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 69/83] fix: crash of mask_rasterio if -configfile is the last
 argument

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 4966305..1d28b16 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
-- 
2.43.0


From b5be8555d081c3a92b5705b2a317d928f2a10990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 70/83] fix: crash of mask_rasterio if an input cannot be read

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 1d28b16..e4eb4dd 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -529,7 +529,7 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-- 
2.43.0


From a5bbd29be30e6bc07a23a1593aaaaae7993a4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 71/83] fix: mask_rasterio decomposes rasters to files without
 reclassification

---
 apps/mask_rasterio.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index e4eb4dd..dd799cf 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -563,7 +563,12 @@ int main(const int argc, const char** argv) {
                                                default_values.at(in_idx));
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
+                    if (output_subset) {
+                        if (nullptr == mask_layer) {
+                            rs->BuildSubSet();
+                        }
+                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                    }
                     if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 5464258e409432d9761303113651b205d841e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 72/83] fix: -outdatatype of mask_rasterio applies to data
 items without a type of their own

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index dd799cf..717b7c5 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -447,7 +447,7 @@ int main(const int argc, const char** argv) {
             if (!str2num_flag) { tmp_nodata = NODATA_VALUE; }
             else { upd_nodata = true; }
         }
-        RasterDataType tmpouttype = RDT_Unknown;
+        RasterDataType tmpouttype = global_outtype;
         if (outtypeidx > 0) {
             tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx));
             if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
-- 
2.43.0


From d586294ab1fb101f8f713e8199ff80452d170644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 73/83] fix: data format alone is no input or output of
 mask_rasterio

---
 apps/mask_rasterio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 717b7c5..d92977f 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -97,6 +97,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
             if (tmpfmt == GFS || tmpfmt == SFILE) {
                 // 7: {"file"} or {"gfs"}
                 fmt = tmpfmt;
+                return true;
             }
             else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
@@ -298,6 +299,7 @@ int main(const int argc, const char** argv) {
                 && tmppaths.empty()) {
                 return 2;
             }
+            if (tmppaths.empty()) { return 2; }
             mask_path = tmppaths[0];
         }
         else if (itkv->first == "OUT" || itkv->first == "OUTPUT") {
-- 
2.43.0


From 6b5d0a1a67baebd96a1666cdb3ae62ee3b876022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 74/83] fix: subset values are combined with their no-data
 cells by mask_rasterio

---
 apps/mask_rasterio.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index d92977f..a1589b8 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -626,12 +626,26 @@ int main(const int argc, const char** argv) {
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
-                    tmpsubrs = DblRaster::Init(*inf_it, true);
+                    tmpsubrs = DblRaster::Init(*inf_it, false);
                     if (nullptr == tmpsubrs) { continue; }
+                    SubsetPositions* tmpsub = subset.at(subid);
                     int tmpsublen;
                     double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    if (tmpsubrs->GetRows() == tmpsub->g_erow - tmpsub->g_srow + 1
+                        && tmpsubrs->GetCols() == tmpsub->g_ecol - tmpsub->g_scol + 1) { // extent of the subset
+                        vector<double> tmpvalues(tmpsub->n_cells);
+                        for (int i = 0; i < tmpsub->n_cells; i++) {
+                            int tmprow = tmpsub->local_posidx_[i] / tmpsubrs->GetCols();
+                            int tmpcol = tmpsub->local_posidx_[i] % tmpsubrs->GetCols();
+                            tmpvalues[i] = tmpsubrs->IsNoData(tmprow, tmpcol) ? mask_layer->GetNoDataValue()
+                                               : tmpsubrs->GetValue(tmprow, tmpcol);
+                        }
+                        tmpsub->SetData(tmpsub->n_cells, tmpvalues.data());
+                    } else { // valid values only
+                        tmpsubrs->SetCalcPositions();
+                        tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
+                        tmpsub->SetData(tmpsublen, tmpsubdata);
+                    }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From f19b246f7437d9f641b4b8d10e096ea87373d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 75/83] fix: default value of subsets missing when combined by
 mask_rasterio

---
 apps/mask_rasterio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index a1589b8..5d1a9f7 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -611,7 +611,8 @@ int main(const int argc, const char** argv) {
                 cout << "Error: The COMBINE mode MUST based on a mask layer!";
                 return 1;
             }
-            mask_layer->SetDefaultValue(default_values.at(in_idx));
+            mask_layer->SetDefaultValue(FloatEqual(default_values.at(in_idx), NODATA_VALUE)
+                                            ? mask_layer->GetNoDataValue() : default_values.at(in_idx));
             map<int, SubsetPositions*>& subset = mask_layer->GetSubset();
             for (auto it = subset.begin(); it != subset.end(); ++it) {
                 it->second->usable = false;
-- 
2.43.0


From 66cbd0c858e5c914827a4215daf67658916ebda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 76/83] fix: mask_rasterio reports missing or unreadable data
 and failed output

---
 apps/mask_rasterio.cpp | 50 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 5d1a9f7..24ab9de 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -167,6 +167,7 @@ int main(const int argc, const char** argv) {
     IOMODE mode = MASK;
     int thread_num = 1;
     bool inc_nodata = true;
+    int exit_code = 0;
 
     bool use_mongo = false;
 #ifdef USE_MONGODB
@@ -472,6 +473,9 @@ int main(const int argc, const char** argv) {
             out_types.emplace_back(tmpouttype);
             reclass_data.push_back(do_recls);
             reclass_keyvalues.emplace_back(tmp_recls);
+        } else {
+            cout << "Error: Input data not existed: " << (*ioit).at(inidx) << endl;
+            exit_code = 2;
         }
     }
 
@@ -493,7 +497,8 @@ int main(const int argc, const char** argv) {
             if (nullptr == mask_layer) { return 3; }
 #endif
         } else {
-            // No mask layer
+            cout << "Error: Mask layer not existed: " << mask_path << endl;
+            return 2;
         }
     }
 
@@ -542,9 +547,14 @@ int main(const int argc, const char** argv) {
 #endif
             }
             else {
+                exit_code = 2;
+                continue;
+            }
+            if (nullptr == rs) {
+                exit_code = 3;
                 continue;
             }
-            if (nullptr == rs) { continue; }
+            bool flag = true;
 
             if (update_nodata.at(in_idx)) { rs->ReplaceNoData(nodata_values.at(in_idx)); }
 
@@ -555,56 +565,57 @@ int main(const int argc, const char** argv) {
             if (out_fmts.at(in_idx) == SFILE) {
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToFile(true, false,
+                        flag = rs->OutputSubsetToFile(true, false,
                                                out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
                                                default_values.at(in_idx));
                     }
                     if (output_all) {
-                        rs->OutputSubsetToFile(true, true,
+                        flag = rs->OutputSubsetToFile(true, true,
                                                out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                                               default_values.at(in_idx)) && flag;
                     }
                 } else {
                     if (output_subset) {
                         if (nullptr == mask_layer) {
                             rs->BuildSubSet();
                         }
-                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                        flag = rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
                     }
-                    if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
+                    if (output_all) { flag = rs->OutputToFile(out_paths.at(in_idx), true) && flag; }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                        flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
                                                   inc_nodata, true, false, 
                                                   reclass_keyvalues.at(in_idx),
                                                   default_values.at(in_idx));
                     }
                     if (output_all) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                        flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
                                                   inc_nodata, true, true, 
                                                   reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                                                  default_values.at(in_idx)) && flag;
                     }
                 } else {
                     if (output_subset) {
                         if (nullptr == mask_layer) {
                             rs->BuildSubSet();
                         }
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                        flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
                                                   inc_nodata, true, false);
                     }
                     if (output_all) {
-                        rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
-                                            inc_nodata, true);
+                        flag = rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
+                                            inc_nodata, true) && flag;
                     }
                 }
 #endif
             } else {
-                // Nothing to do
+                flag = false;
             }
+            if (!flag) { exit_code = 3; }
             delete rs;
         } else if (mode == COM) {
             if (nullptr == mask_layer) {
@@ -658,18 +669,17 @@ int main(const int argc, const char** argv) {
                 }
             }
             mask_layer->SetOutDataType(out_types.at(in_idx));
+            bool flag = false;
             if (out_fmts.at(in_idx) == SFILE) {
-                mask_layer->OutputToFile(out_paths.at(in_idx), false);
+                flag = mask_layer->OutputToFile(out_paths.at(in_idx), false);
             }
             else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
+                flag = mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
                                             inc_nodata, false);
 #endif
             }
-            else {
-                // Nothing to do
-            }
+            if (!flag) { exit_code = 3; }
         } else {
             // Nothing to do
         }
@@ -682,5 +692,5 @@ int main(const int argc, const char** argv) {
         delete client;
     }
 #endif
-    return 0;
+    return exit_code;
 }
-- 
2.43.0


From fd3ae290298370f307faf5f009693ad5e443ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 77/83] fix: stated output format of mask_rasterio

---
 apps/mask_rasterio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 24ab9de..c075f9b 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -378,7 +378,8 @@ int main(const int argc, const char** argv) {
     if (!use_mongo) {
         if (global_outfmt == GFS) { global_outfmt = SFILE; }
     }
-    if (global_outfmt == UNKNOWNFMT) {
+    bool outfmt_stated = global_outfmt != UNKNOWNFMT;
+    if (!outfmt_stated) {
         global_outfmt = global_infmt;
     }
     if (!in_paths.empty()) {
@@ -435,7 +436,7 @@ int main(const int argc, const char** argv) {
 
         if (global_infmt == UNKNOWNFMT && FilesExist(tmpin)) { global_infmt = SFILE; }
         if (global_infmt == UNKNOWNFMT && !tmpin.empty() && use_mongo) { global_infmt = GFS; }
-        if (global_outfmt != GFS && use_mongo) { global_outfmt = GFS; }
+        if (!outfmt_stated && use_mongo) { global_outfmt = GFS; }
         if (global_outfmt == UNKNOWNFMT) { global_outfmt = SFILE; }
 
         double tmp_defv = NODATA_VALUE;
-- 
2.43.0


From a73c90944a49358123f4de8a9e305021514e206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 78/83] fix: mask_rasterio reports subset data that cannot be
 combined

---
 apps/mask_rasterio.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index c075f9b..4d6d1e6 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -640,7 +640,10 @@ int main(const int argc, const char** argv) {
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
                     tmpsubrs = DblRaster::Init(*inf_it, false);
-                    if (nullptr == tmpsubrs) { continue; }
+                    if (nullptr == tmpsubrs) {
+                        exit_code = 3;
+                        continue;
+                    }
                     SubsetPositions* tmpsub = subset.at(subid);
                     int tmpsublen;
                     double* tmpsubdata = nullptr;
@@ -657,16 +660,16 @@ int main(const int argc, const char** argv) {
                     } else { // valid values only
                         tmpsubrs->SetCalcPositions();
                         tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                        tmpsub->SetData(tmpsublen, tmpsubdata);
+                        if (!tmpsub->SetData(tmpsublen, tmpsubdata)) { exit_code = 3; }
                     }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
+                    if (!subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts)) { exit_code = 3; }
 #endif
                 } else {
-                    // Nothing to do
+                    exit_code = 2;
                 }
             }
             mask_layer->SetOutDataType(out_types.at(in_idx));
-- 
2.43.0


From 4ff416f33dfb78dac53931c5e808d55827d5643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 79/83] fix: reclassification list of mask_rasterio that starts
 with a negative value

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 4d6d1e6..e68dbfa 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -213,7 +213,7 @@ int main(const int argc, const char** argv) {
         }
         bool tmp_dbl_flag = false;
         IsDouble(argv[idx], tmp_dbl_flag);
-        if (tmp_dbl_flag) { continue; }
+        if (tmp_dbl_flag || (argv[idx][1] >= '0' && argv[idx][1] <= '9')) { continue; } // e.g., -1:2,3:4
         arg_sep.push_back(idx);
     }
     map<string, vector<string> > key_args;
-- 
2.43.0


From eb443a0b7225278da501a2042477463b551daa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:16 +0000
Subject: [PATCH 80/83] fix: a further layer that is refused after some of its
 values were read leaks them

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 16c9a51..bff8a0e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3607,6 +3607,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
 #endif
         }
         if (!readflag) {
+            if (nullptr != tmplyrdata) { Release1DArray(tmplyrdata); }
             ReleaseRasterData();
             return false;
         }
-- 
2.43.0


From 2a3aee3a5e83a980f69e03ea7bffb2165b815669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:16 +0000
Subject: [PATCH 81/83] fix: asking for a missing collection leaks the database
 handle

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index c9f0d32..61ebf8c 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -156,6 +156,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
-- 
2.43.0


From 694383963f417f1f3bde3ad84004d99d41772cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:16 +0000
Subject: [PATCH 82/83] fix: listing the files of a GridFS leaks the query

---
 src/db_mongoc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 61ebf8c..2e88f7e 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -383,7 +383,6 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-- 
2.43.0


From ba69f8764ff8d7304fe1c1739e1c526c1451f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 83/83] fix: counting the documents of a collection leaks the
 query

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2e88f7e..40af23b 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -280,7 +280,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -288,6 +288,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0

