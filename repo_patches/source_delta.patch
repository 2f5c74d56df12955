From 97c90d95bb95f5efb8e0f4b2d69052a710833229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/89] fix: SplitString by blanks repeated the last word after
 trailing blanks

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..ce8f227 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 48580c0daa785e978ecdb4a1aabfe50ab3e6735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/89] fix: IsDouble accepted the empty text as a number

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index ce8f227..510f2b5 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -303,14 +303,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From 44d27cc44a35854478c7db06d1b4e3854a8eed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 03/89] fix: IsIpAddress accepted trailing components and
 octets that overflow int

---
 src/basic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..f347b31 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -50,9 +50,11 @@ const char* ModelException::what() const NOEXCEPT {
 bool IsIpAddress(const char* ip) {
     bool rv = true;
     int tmp1, tmp2, tmp3, tmp4;
+    int length = 0;
     while (true) {
-        int i = stringscanf(ip, "%d.%d.%d.%d", &tmp1, &tmp2, &tmp3, &tmp4);
-        if (i != 4) {
+        // The width limits avoid integer overflow, and the whole text must be consumed
+        int i = stringscanf(ip, "%4d.%4d.%4d.%4d%n", &tmp1, &tmp2, &tmp3, &tmp4, &length);
+        if (i != 4 || ip[length] != '\0') {
             rv = false;
             //cout << "IP Address format is not correct!" << endl;
             break;
-- 
2.43.0


From a5216b86a9171fbacd51d82b19153526e1b42d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 04/89] fix: local time texts were wrong around midnight and
 month ends under daylight saving

---
 src/utils_time.cpp | 74 +++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..58bcea6 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -27,12 +27,23 @@ double TimeCounting() {
 #endif /* WINDOWS */
 }
 
+/// Convert the broken-down daylight saving time (if in effect) to standard time, i.e., one hour earlier
+static void RemoveDaylightSaving(struct tm* date_info) {
+    if (date_info->tm_isdst <= 0) { return; }
+    date_info->tm_hour -= 1;
+    date_info->tm_isdst = 0;
+    // Normalize the fields, since the day, month, and even year may change
+#ifdef WINDOWS
+    _mkgmtime(date_info);
+#else
+    timegm(date_info);
+#endif
+}
+
 string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    RemoveDaylightSaving(date_info);
     char date_string[11];
     strftime(date_string, 11, "%Y-%m-%d", date_info);
     delete date_info;
@@ -40,32 +51,9 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
 }
 
 string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
-    static int month_days[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        if (date_info->tm_hour != 0) {
-            date_info->tm_hour -= 1;
-        } else {
-            date_info->tm_hour = 23;
-            date_info->tm_mday -= 1;
-            if (date_info->tm_mday == 0) {
-                date_info->tm_mon -= 1;
-
-                if (date_info->tm_mon == 0) {
-                    date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
-                    date_info->tm_mday = 31;
-                } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-                    } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
-                    }
-                }
-            }
-        }
-    }
+    RemoveDaylightSaving(date_info);
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
     string s(date_string);
@@ -74,35 +62,9 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
 }
 /// format: 2022_11_17_092000
 string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
-	static int month_days[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
 	struct tm* date_info = new tm();
 	GetDateTime(date, date_info, utc_time);
-	if (date_info->tm_isdst > 0) {
-		if (date_info->tm_hour != 0) {
-			date_info->tm_hour -= 1;
-		}
-		else {
-			date_info->tm_hour = 23;
-			date_info->tm_mday -= 1;
-			if (date_info->tm_mday == 0) {
-				date_info->tm_mon -= 1;
-
-				if (date_info->tm_mon == 0) {
-					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
-					date_info->tm_mday = 31;
-				}
-				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-					}
-					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
-					}
-				}
-			}
-		}
-	}
+	RemoveDaylightSaving(date_info);
 	char date_string[30];
 	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
@@ -182,9 +144,7 @@ time_t ConvertYMDToTime(int& year, int& month, int& day, const bool utc_time /*
 int GetDateInfoFromTimet(const time_t t, int* year, int* month, int* day, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(t, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    RemoveDaylightSaving(date_info);
 
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
-- 
2.43.0


From f7d96a7cc94cb5eee6b3d8bf71cdfa713936571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 05/89] fix: ConvertToTime used uninitialized values when the
 text does not match the format

---
 src/utils_time.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 58bcea6..d3de2ca 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -86,11 +86,13 @@ time_t ConvertToTime(const string& str_date, string const& format, const bool in
     int sec = 0;
 
     try {
+        int count = 0; // number of fields converted, the hour, minute, and second are optional
         if (include_hour) {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
+            count = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
         } else {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+            count = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
         }
+        if (count < 3) { return t; }
         struct tm* time_info = new tm();
         time_info->tm_year = yr - 1900;
         time_info->tm_mon = mn - 1;
-- 
2.43.0


From b328bf22fe04649d96bca28284773502d429d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 06/89] fix: DateTime::Forward and Backward ignored the
 requested shift

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index d3de2ca..432ace8 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -449,17 +449,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 1b7682a9628163f354f31ed16149678652e018af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 07/89] fix: GetSuffix took a dot in a directory name as the
 start of the suffix

---
 src/utils_filesystem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..2e88c8a 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -310,11 +310,10 @@ string GetCoreFileName(string const& full_filename) {
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
-    }
-    return "";
+    string::size_type sep = abspath.find_last_of(SEP);
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos || (sep != string::npos && dot < sep)) { return ""; }
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From f81961ed2b22f6f4f11d2faec44a211436c2c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 08/89] fix: FindFiles listed directories and files whose
 suffix was merely part of the requested one

---
 src/utils_filesystem.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 2e88c8a..e445c67 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -101,20 +101,23 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             if (h_file->d_name[0] == '.') continue;
 
             string filename(h_file->d_name);
-            // cout << filename<<endl;
-            string ext = GetSuffix(filename);
-            // cout << ext << "\t" << expression << endl;
+            string fullname = string(newlp_path) + SEP + filename;
+            struct stat file_stat;
+            if (stat(fullname.c_str(), &file_stat) == 0 && S_ISDIR(file_stat.st_mode)) continue; // only files
+            // the suffix requested, i.e., the text after the last dot of the expression
             string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
-                || utils_string::StringMatch(expression, ".*")
-                || utils_string::StringMatch(expression, "*.*")) {
-                std::ostringstream oss;
-                oss << newlp_path << SEP << filename;
-                cout << oss.str() << endl;
-                vec_files.emplace_back(oss.str());
+            string::size_type expdot = strexpression.find_last_of('.');
+            string expsuffix = expdot == string::npos ? strexpression : strexpression.substr(expdot + 1);
+            string::size_type dot = filename.find_last_of('.');
+            string ext = dot == string::npos ? string() : filename.substr(dot + 1);
+            if (expsuffix == "*" || utils_string::StringMatch(ext, expsuffix)) {
+                cout << fullname << endl;
+                vec_files.emplace_back(fullname);
             }
         }
         closedir(dir);
+    } else {
+        return -1;
     }
 #endif /* WINDOWS */
     return 0;
-- 
2.43.0


From 25a77259159450865641519bf7b30cd60960d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 09/89] fix: DeleteDirectory reported success when entries
 could not be deleted

---
 src/utils_filesystem.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index e445c67..f9ffb73 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -223,30 +223,36 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     }
     return true;
 #else
-    DIR *dir;
-    struct dirent *entry;
-    char path[PATH_MAX];
+    bool b_subdirectory = false; // Flag, indicating whether subdirectories are left
+    bool b_status = true;
 
-    dir = opendir(abspath.c_str());
+    DIR *dir = opendir(abspath.c_str());
     if (dir == nullptr) {
         perror("Error opendir()");
-        return true;
+        return false;
     }
 
+    struct dirent *entry;
     while ((entry = readdir(dir)) != nullptr) {
         if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
-            snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
-                DeleteDirectory(path, del_subdirs);
+            string path = abspath + SEP + entry->d_name;
+            struct stat entry_stat;
+            if (lstat(path.c_str(), &entry_stat) == 0 && S_ISDIR(entry_stat.st_mode)) {
+                if (!del_subdirs) {
+                    b_subdirectory = true;
+                } else if (!DeleteDirectory(path, del_subdirs)) {
+                    b_status = false;
+                }
+                continue;
             }
-            printf("Deleting: %s\n", path);
-            remove(path);
+            printf("Deleting: %s\n", path.c_str());
+            if (remove(path.c_str()) != 0) { b_status = false; }
         }
     }
     closedir(dir);
+    if (!b_status || b_subdirectory) { return b_status; }
     printf("Deleting: %s\n", abspath.c_str());
-    remove(abspath.c_str());
-    return true;
+    return remove(abspath.c_str()) == 0;
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From d62e6b63f488e11eced010951ff3f5e7cf3c0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 10/89] fix: LoadPlainTextFile never returned when reading
 failed

---
 src/utils_filesystem.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index f9ffb73..cd4aaa2 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -386,18 +386,15 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = !myfile.bad(); // consider this a success
+            if (!b_status) { content_strs.clear(); }
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From 6cd42bdc9bcb939e0d87a5277f683e776714bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 11/89] fix: DeleteExistedFile removed the target of a symbolic
 link instead of the named file

---
 src/utils_filesystem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index cd4aaa2..9633731 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -55,9 +55,8 @@ bool PathExists(string const& fullpath) {
 }
 
 int DeleteExistedFile(const string& filepath) {
-    string abspath = GetAbsolutePath(filepath);
-    if (FileExists(abspath)) {
-        return remove(abspath.c_str());
+    if (FileExists(filepath)) {
+        return remove(filepath.c_str());
     }
     return -1;
 }
-- 
2.43.0


From 4201e3411d0425ee706446b0a24065ebfa895079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 12/89] fix: copying an empty or moved-from Array2D read
 through a null pointer

---
 src/utils_array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..79ff003 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -279,9 +279,10 @@ public:
         }
     }
 
-    Array2D(const Array2D& rhs) : m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+    Array2D(const Array2D& rhs) : data_ptr(nullptr), m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+        if (nullptr == rhs.data_ptr) { return; } // empty array
         data_ptr = create2DArray(m_rows, m_cols);
-        std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[m_rows - 1][m_cols], &data_ptr[0][0]);
+        std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[0][0] + CVT_SIZET(m_rows) * m_cols, &data_ptr[0][0]);
     }
 
     Array2D(Array2D&& rhs) NOEXCEPT {
@@ -289,6 +290,8 @@ public:
         m_rows = rhs.m_rows;
         m_cols = rhs.m_cols;
         rhs.data_ptr = nullptr;
+        rhs.m_rows = 0;
+        rhs.m_cols = 0;
     }
 
     Array2D& operator=(Array2D&& rhs) NOEXCEPT {
-- 
2.43.0


From 49c8e853c85cbc9db973183348a5be774c0b122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 13/89] fix: BatchRelease2DArray could not be compiled

---
 src/utils_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 79ff003..98ddc5e 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -494,10 +494,10 @@ template <typename T>
 void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From 4fbb8baf2c73f5e5ab16d500bf61d6b7570774b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 14/89] fix: failed array initialization left memory behind or
 an array that cannot be released

---
 src/utils_array.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 98ddc5e..8b4c23f 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -363,16 +363,16 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     data = new(nothrow) T[row];
     if (nullptr == data) {
         delete[] data;
         cout << "Bad memory allocated during 1D array initialization!" << endl;
         return false;
     }
-    if (nullptr == init_data) {
-        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
-        return false;
-    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
@@ -387,6 +387,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The numbers of rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
@@ -396,7 +400,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
     T* pool = nullptr;
     pool = new(nothrow) T[row * col];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
-- 
2.43.0


From bb367ddef6dd42d63083d33fb279a29ac3385b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 15/89] fix: BasicStatistics reported wrong extremes for values
 beyond the range of float

---
 src/utils_math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index b6885ba..5d7ee0d 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -389,8 +389,8 @@ void BasicStatistics(const T* values, const int num, double** derivedvalues,
     double std = 0.;
     for (int i = 0; i < num; i++) {
         if (FloatEqual(values[i], exclude)) continue;
-        if (maxv < values[i]) maxv = values[i];
-        if (minv > values[i]) minv = values[i];
+        if (validnum == 0 || maxv < values[i]) maxv = values[i];
+        if (validnum == 0 || minv > values[i]) minv = values[i];
         validnum += 1;
         sumv += values[i];
     }
@@ -431,8 +431,8 @@ void BasicStatistics(const T*const * values, const int num, const int lyrs,
     for (int i = 0; i < num; i++) {
         for (int j = 0; j < lyrs; j++) {
             if (FloatEqual(values[i][j], exclude)) continue;
-            if (tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
-            if (tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
+            if (tmpstats[0][j] == 0. || tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
+            if (tmpstats[0][j] == 0. || tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
             tmpstats[0][j] += 1;
             sumv[j] += values[i][j];
         }
-- 
2.43.0


From f7df0e1be670bbd1d03af9de931679c7cf3072f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/89] fix: ApprExp was wrong beyond +-43 because the power of
 two overflowed

---
 src/utils_math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index 5d7ee0d..cf8713f 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -265,13 +265,13 @@ static inline T __p_exp_ln2(const T x) {
  */
 template <typename T>
 static inline T __p_exp_pos(const T x) {
-    long int k, twok;
+    long int k;
     static const T ln2 = static_cast<T>(M_LN2);
-    T x_;
+    T x_, twok;
     k = x / ln2;
-    twok = 1ULL << k;
+    twok = static_cast<T>(std::ldexp(1.0, static_cast<int>(k)));
     x_ = x - static_cast<T>(k) * ln2;
-    return static_cast<T>(twok) * __p_exp_ln2(x_);
+    return twok * __p_exp_ln2(x_);
 }
 
 template <typename T>
-- 
2.43.0


From f45ed347e04425ecb0716c613aeb382c7e5ee336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 17/89] fix: ReadAscFile crashed on or accepted headers and
 values that do not make up a grid

---
 src/data_raster.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..a4cc75d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -216,8 +216,8 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     StatusMessage(("Read " + filename + "...").c_str());
     vector<string> content_strs;
     if (!LoadPlainTextFile(filename, content_strs)) { return false; }
-    if (content_strs.size() < 7) {
-        StatusMessage("Error: ASCII raster data requires at least 7 lines!");
+    if (content_strs.size() < 6) { // five mandatory header lines and at least one line of values
+        StatusMessage("Error: ASCII raster data requires at least 6 lines!");
         return false;
     }
     double cellsize = -1.;
@@ -229,6 +229,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     int rows = -1;
     int cols = -1;
     int vidx = 0;
+    int count = -1; // expected count of values, known once the first value occurred
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
@@ -268,10 +269,12 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (!str2value) { return false; }
         }
         else {
-            if (rows < 0 || cols < 0) {
-                StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+            if (rows <= 0 || cols <= 0 || rows > INT32_MAX / cols) {
+                StatusMessage("Error: Valid NCOLS and NROWS should be defined first!");
+                return false;
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
+            if (count < 0) { count = rows * cols; }
+            if (nullptr == values && !Initialize1DArray(count, values, nodata)) { return false; }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
                 if (!str2value) {
@@ -279,7 +282,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
                     if (nullptr != values) { Release1DArray(values); }
                     return false;
                 }
-                if (vidx == rows * cols) {
+                if (vidx == count) {
                     StatusMessage("Error: Count of values MUST equal to rows * cols!");
                     if (nullptr != values) { Release1DArray(values); }
                     return false;
@@ -288,9 +291,15 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             }
         }
     }
-    if (rows < 0 || cols < 0 || cellsize < 0 ||
+    if (rows <= 0 || cols <= 0 || !(cellsize > 0) ||
         FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
+        Release1DArray(values);
+        return false;
+    }
+    if (rows > INT32_MAX / cols || vidx != rows * cols) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        Release1DArray(values);
         return false;
     }
     // default is center, if corner, then:
-- 
2.43.0


From c67719cf7a44bf1dac0cf3c5e8aa2d510501c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 18/89] fix: ASCII output lost digits of the georeference and
 wrote wrong no-data and char values

---
 src/data_raster.cpp |  1 +
 src/data_raster.hpp | 18 +++++++++---------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..c671e87 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -198,6 +198,7 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
+    raster_file << setprecision(15); // do not lose the georeference
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a4cc75d..d77e723 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -345,7 +345,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            raster_file << setprecision(6) << +values[i * cols + j] << " "; // char types as numbers
         }
         raster_file << endl;
     }
@@ -3176,13 +3176,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(6) << +raster_2d_[index][lyr] << " ";
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(6) << +raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
@@ -3190,7 +3190,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
         }
     } else { // 1D raster data
         if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
-        std::ofstream raster_file(filename.c_str(), std::ios::app | std::ios::out);
+        std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
         if (!raster_file.is_open()) {
             StatusMessage("Error opening file: " + abs_filename);
             return false;
@@ -3200,15 +3200,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    raster_file << setprecision(6) << +raster_[index] << " ";
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        raster_file << setprecision(6) << +raster_[index] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
+                } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
             }
             raster_file << endl;
         }
-- 
2.43.0


From aed8d8375188b251572f2daea3eacdc49ec99205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 19/89] fix: ASCII output reported success when writing failed

---
 src/data_raster.cpp | 2 +-
 src/data_raster.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index c671e87..552af70 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -204,7 +204,7 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
     raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
-    return true;
+    return !raster_file.fail();
 }
 
 /* Start SubsetPositions */
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d77e723..b8954bb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -351,7 +351,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     raster_file << endl;
     raster_file.close();
-    return true;
+    return !raster_file.fail();
 }
 
 #ifdef USE_GDAL
@@ -3187,6 +3187,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 raster_file << endl;
             }
             raster_file.close();
+            if (raster_file.fail()) { return false; }
         }
     } else { // 1D raster data
         if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
@@ -3213,6 +3214,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             raster_file << endl;
         }
         raster_file.close();
+        if (raster_file.fail()) { return false; }
     }
     position = nullptr;
     return true;
-- 
2.43.0


From dfc58cd7c0a03de24dc11509687632deda14f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 20/89] fix: raster export compared signed with unsigned values
 and mistook the limits of 64-bit types

---
 src/data_raster.hpp | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b8954bb..556a9ec 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -582,6 +582,21 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Check if a value is within the range of the integer type OUT_T, e.g., -1 is not for vuint8_t
+ */
+template <typename OUT_T, typename T>
+bool WithinIntegerRange(const T val) {
+    typedef std::numeric_limits<OUT_T> lim;
+    if (std::numeric_limits<T>::is_integer) { // DO NOT compare signed with unsigned integers
+        if (val < 0) { return lim::is_signed && static_cast<vint64_t>(val) >= static_cast<vint64_t>(lim::min()); }
+        return static_cast<vuint64_t>(val) <= static_cast<vuint64_t>(lim::max());
+    }
+    double dval = CVT_DBL(val);
+    double dmax = CVT_DBL(lim::max()); // the maximum of 64-bit types is rounded up to 2^63 or 2^64
+    return dval >= CVT_DBL(lim::min()) && (lim::digits > 53 ? dval < dmax : dval <= dmax);
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -615,7 +630,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
             new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
             unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
+            if (!WithinIntegerRange<unsigned char>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = UINT8_MAX;
                 change_nodata = true;
             }
@@ -626,7 +641,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<unsigned char>(values[i])) { illegal_count += 1; continue; }
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -638,7 +653,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
 #endif
             new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
             signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
+            if (!WithinIntegerRange<signed char>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = INT8_MIN;
                 change_nodata = true;
             }
@@ -649,7 +664,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if (!WithinIntegerRange<signed char>(values[i])) { illegal_count += 1; continue; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -657,7 +672,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt16) { // [0, 65535]
             new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
             vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
+            if (!WithinIntegerRange<vuint16_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = UINT16_MAX;
                 change_nodata = true;
             }
@@ -668,7 +683,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vuint16_t>(values[i])) { illegal_count += 1; continue; }
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -676,7 +691,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int16) { // [-32768, 32767]
             new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
             vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
+            if (!WithinIntegerRange<vint16_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = INT16_MIN;
                 change_nodata = true;
             }
@@ -687,7 +702,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vint16_t>(values[i])) { illegal_count += 1; continue; }
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -695,7 +710,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
             new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
             vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
+            if (!WithinIntegerRange<vuint32_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = UINT32_MAX;
                 change_nodata = true;
             }
@@ -706,7 +721,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vuint32_t>(values[i])) { illegal_count += 1; continue; }
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -714,7 +729,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
             new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
             vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
+            if (!WithinIntegerRange<vint32_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = INT32_MIN;
                 change_nodata = true;
             }
@@ -725,7 +740,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vint32_t>(values[i])) { illegal_count += 1; continue; }
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -734,7 +749,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (!WithinIntegerRange<vuint64_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -745,7 +760,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vuint64_t>(values[i])) { illegal_count += 1; continue; }
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -753,7 +768,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (!WithinIntegerRange<vint64_t>(old_nodata) || old_nodata != std::floor(old_nodata)) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
@@ -764,7 +779,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if (!WithinIntegerRange<vint64_t>(values[i])) { illegal_count += 1; continue; }
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From 2f13a4d196a9697e028b274edf571e5351a0964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 21/89] fix: exporting as float turned values beyond the range
 of float into infinity

---
 src/data_raster.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 556a9ec..d91c4f9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -788,8 +788,22 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Float) {
             new_values = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
             float* values_float = static_cast<float*>(new_values);
-#pragma omp parallel for
-            for (int i = 0; i < n_cols * n_rows; i++) values_float[i] = static_cast<float>(values[i]);
+            if (std::fabs(old_nodata) > FLT_MAX && std::fabs(old_nodata) <= DBL_MAX) {
+                new_nodata = MISSINGFLOAT;
+                change_nodata = true;
+            }
+            int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+            for (int i = 0; i < n_cols * n_rows; i++) {
+                if (change_nodata && FloatEqual(values[i], old_nodata)) {
+                    values_float[i] = static_cast<float>(MISSINGFLOAT);
+                    continue;
+                }
+                double absval = std::fabs(CVT_DBL(values[i])); // infinity can be represented
+                if (absval > FLT_MAX && absval <= DBL_MAX) { illegal_count += 1; continue; }
+                values_float[i] = static_cast<float>(values[i]);
+            }
+            if (illegal_count > 0) convert_permit = false;
         }
         else if (outtype == RDT_Double) {
             new_values = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-- 
2.43.0


From 1b5a3f774b522fffa1f664c5cdd09a4abec939b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 22/89] fix: no-data value declared in exported GeoTIFF
 differed from that of the cells

---
 src/data_raster.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d91c4f9..c96c8b1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -843,7 +843,19 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
+    // The declared NoData should be exactly what has been written to cells
+    if (outtype == RDT_Float) { new_nodata = CVT_DBL(static_cast<float>(new_nodata)); }
+#if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
+    if (outtype == RDT_Int64 && WithinIntegerRange<vint64_t>(new_nodata)) {
+        po_dst_band->SetNoDataValueAsInt64(static_cast<vint64_t>(new_nodata));
+    }
+    else if (outtype == RDT_UInt64 && (WithinIntegerRange<vuint64_t>(new_nodata) || change_nodata)) {
+        po_dst_band->SetNoDataValueAsUInt64(change_nodata ? UINT64_MAX : static_cast<vuint64_t>(new_nodata));
+    }
+    else { po_dst_band->SetNoDataValue(new_nodata); }
+#else
     po_dst_band->SetNoDataValue(new_nodata);
+#endif
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From 0713712f67cc0924d9e1216e2ae0b1bd2b41ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 23/89] fix: GeoTIFF output reported success when writing
 failed

---
 src/data_raster.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c96c8b1..ad4e2c1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -820,12 +820,20 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALDriver* po_driver = GetGDALDriverManager()->GetDriverByName("GTiff");
-    if (nullptr == po_driver) { return false; }
+    if (nullptr == po_driver) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    if (nullptr == po_dst_ds) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
     if (!recreate_flag) {
@@ -872,7 +880,12 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
+    CPLErrorReset(); // data are written out not until closing
     GDALClose(po_dst_ds);
+    if (CPLGetLastErrorType() >= CE_Failure) {
+        StatusMessage("Write file " + filename + " failed: " + string(CPLGetLastErrorMsg()));
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 20de31421299377b1e209cbf3d54310b179dd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 24/89] fix: raster constructors with a spatial reference text
 left the object uninitialized

---
 src/data_raster.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ad4e2c1..364fa56 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2141,10 +2141,9 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data, cols, rows, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2171,10 +2170,9 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 14fc3ee972d8147df49dfbf895ac84f6e3c915b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 25/89] fix: raster constructor from several files worked on
 uninitialized members

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 364fa56..86554d6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2231,6 +2231,8 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
@@ -2238,6 +2240,7 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
     if (filenames.size() == 1) {
         ReadFromFile(filenames[0], calc_pos, mask,
                      use_mask_ext, default_value, opts);
+        return;
     }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
-- 
2.43.0


From ee6360b726527a1c934db6271661c740d1cca515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 26/89] fix: raster built from a mask and layered values
 ignored the output type and default value

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 86554d6..7fc7916 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2298,6 +2298,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
     calc_pos_ = false;
     mask_ = mask;
     use_mask_ext_ = true;
@@ -2310,6 +2311,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
         return;
     }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
-- 
2.43.0


From ae963eb5310051fe7707535e2b5deff382ef5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 27/89] fix: values of a raster built from a mask and values
 were looked up by wrong index

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7fc7916..6e4d81f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2275,7 +2275,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored at the valid positions of mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2299,7 +2299,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored at the valid positions of mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
-- 
2.43.0


From cd364654b62fc0dfd51ce405db3deff26436cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 28/89] fix: Reclassify threw for values missing in the
 reclassification map

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6e4d81f..c812657 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3820,7 +3820,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.count(curv) == 0) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From d475835610dd5d9efc16fbbc54542173ee61725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 29/89] fix: reading several layers crashed when one of the
 other layers cannot be read

---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c812657..c2ce633 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3533,19 +3533,24 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool readflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            readflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            readflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
             return false;
 #endif
         }
+        if (!readflag) {
+            Release1DArray(tmplyrdata);
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
-- 
2.43.0


From 8c87acefe7b56bfc90575c16f19fa2567fe910d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 30/89] fix: coordinates in the outer half of the first column
 and last row were taken as outside

---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c2ce633..8ae105e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2673,6 +2673,8 @@ int clsRasterData<T, MASK_T>::GetPosition(const double x, const double y) {
 
     int n_row = CVT_INT((y_max - y) / dy); //calculate from ymax
     int n_col = CVT_INT((x - x_min) / dx); //calculate from xmin
+    if (n_row >= n_rows) { n_row = n_rows - 1; } // the lower and right borders belong to
+    if (n_col >= n_cols) { n_col = n_cols - 1; } //   the last row and column
 
     return GetPosition(n_row, n_col);
 }
@@ -3865,10 +3867,13 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    // the lower and right borders belong to the last row and column
+    return ROW_COL(row < n_rows ? row : n_rows - 1, col < n_cols ? col : n_cols - 1);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 14619f7188baa619a220d20e583413b3864fde9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 31/89] fix: statistics of multi-layer rasters were unavailable
 at once or after being released

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8ae105e..3ef86a6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2537,7 +2537,7 @@ void clsRasterData<T, MASK_T>::ReleaseStatsMap2D() {
             Release1DArray(it->second);
         }
     }
-    stats_2d_.clear();
+    if (is_2draster) { stats_calculated_ = false; }
 }
 
 template <typename T, typename MASK_T>
@@ -2581,7 +2581,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
-- 
2.43.0


From 6c3e2dc6ff58847b2550b4858ea5c5be64d7468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 32/89] fix: copying onto a raster released positions of others
 and mixed up data of different dimensions

---
 src/data_raster.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3ef86a6..1576c61 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3720,19 +3720,17 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (orgraster == this) { return; }
     // Release current data
-    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
-        Release2DArray(raster_2d_);
-    }
-    if (!is_2draster && nullptr != raster_) {
-        Release1DArray(raster_);
-    }
-    if (nullptr != pos_data_) {
+    Release2DArray(raster_2d_);
+    Release1DArray(raster_);
+    if (store_pos_) { // otherwise, positions belong to others, e.g., mask
         Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
         Release1DArray(pos_idx_);
     }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
@@ -3749,8 +3747,8 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
-- 
2.43.0


From 30a69d45f4e136d87bf54d50db66f1ec344da5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 33/89] fix: masking a raster again released positions that
 belong to the former mask

---
 src/data_raster.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1576c61..04f8ab6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4147,6 +4147,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     }
 
     // ReCalculate valid position
+    bool old_store_pos = store_pos_; // otherwise, positions belong to others, e.g., mask
     if (recalc_pos) {
         // clean redundant values (i.e., NODATA)
         auto rit = pos_rows.begin();
@@ -4182,8 +4183,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
 
         store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        if (nullptr != pos_data_ && old_store_pos) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_ && old_store_pos) { Release1DArray(pos_idx_); }
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4196,8 +4199,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        if (nullptr != pos_data_ && old_store_pos) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_ && old_store_pos) { Release1DArray(pos_idx_); }
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From 75ea7126fb2068a58a251f5c3e4c7c6f6a875692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 34/89] fix: masked raster kept unselected cells or took
 default values as data of the source

---
 src/data_raster.hpp | 62 ++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 04f8ab6..5d960cb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4004,7 +4004,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         if (FloatEqual(tmp_value, no_data_value_)) {
             if (!FloatEqual(default_value_, no_data_value_)) {
                 tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
             }
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
@@ -4020,7 +4019,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
                 }
             }
             values_2d[i] = tmp_values;
@@ -4218,43 +4216,37 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (store_fullsize) {
         n_cells_ = ncols * nrows;
     }
-    bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
+    if (is_2draster && nullptr != raster_2d_) { // multiple layers
+        Release2DArray(raster_2d_);
+        Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    } else { // single layer
+        Release1DArray(raster_);
+        Initialize1DArray(n_cells_, raster_, no_data_value_);
     }
-    if (release_origin) {
-        if (is_2draster && nullptr != raster_2d_) { // multiple layers
-            Release2DArray(raster_2d_);
-            Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
-        } else { // single layer
-            Release1DArray(raster_);
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
-        }
-        // Loop the masked raster values
-        size_t synthesis_idx = 0;
-        for (size_t k = 0; k < pos_rows.size(); ++k) {
-            synthesis_idx = k;
-            int tmpr = pos_rows.at(k);
-            int tmpc = pos_cols.at(k);
-            if (store_fullsize) {
-                if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col) {
-                    continue;
-                }
-                synthesis_idx = (tmpr - min_row) * ncols + tmpc - min_col;
-                if (synthesis_idx > n_cells_ - 1) {
-                    continue; // error may occurred!
-                }
+    // Loop the masked raster values
+    size_t synthesis_idx = 0;
+    for (size_t k = 0; k < pos_rows.size(); ++k) {
+        synthesis_idx = k;
+        int tmpr = pos_rows.at(k);
+        int tmpc = pos_cols.at(k);
+        if (store_fullsize) {
+            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col) {
+                continue;
             }
-            if (is_2draster) { // multiple layers
-                raster_2d_[synthesis_idx][0] = values.at(k);
-                if (n_lyrs_ > 1) {
-                    for (int lyr = 1; lyr < n_lyrs_; lyr++) {
-                        raster_2d_[synthesis_idx][lyr] = values_2d[k][lyr - 1];
-                    }
+            synthesis_idx = (tmpr - min_row) * ncols + tmpc - min_col;
+            if (synthesis_idx > n_cells_ - 1) {
+                continue; // error may occurred!
+            }
+        }
+        if (is_2draster) { // multiple layers
+            raster_2d_[synthesis_idx][0] = values.at(k);
+            if (n_lyrs_ > 1) {
+                for (int lyr = 1; lyr < n_lyrs_; lyr++) {
+                    raster_2d_[synthesis_idx][lyr] = values_2d[k][lyr - 1];
                 }
-            } else { // single layer
-                raster_[synthesis_idx] = values.at(k);
             }
+        } else { // single layer
+            raster_[synthesis_idx] = values.at(k);
         }
     }
 
-- 
2.43.0


From 9405d06e0bea1e21229eb502a978c48e8aab7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 35/89] fix: valid positions within the extent of mask were
 shifted or dropped

---
 src/data_raster.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5d960cb..4a5bfe2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4156,7 +4156,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             size_t idx = distance(vit, it);
             int tmpr = pos_rows.at(idx);
             int tmpc = pos_cols.at(idx);
-            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col
+            if ((upd_header_rowcol
+                 && (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col))
                 || FloatEqual(static_cast<T>(*it), no_data_value_)) {
                 it = values.erase(it);
                 if (is_2draster && n_lyrs_ > 1) {
@@ -4169,8 +4170,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 cit = pos_cols.begin();
                 vit = values.begin();
             } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
+                if (upd_header_rowcol) {
+                    pos_rows[idx] -= min_row; // get new column and row number
+                    pos_cols[idx] -= min_col;
+                }
                 ++it;
             }
         }
-- 
2.43.0


From 8bcbc99f5e8e3b1de5e1c6c6391dfc0d3938048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 36/89] fix: masking by a mask without any valid value beneath
 left a broken raster

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4a5bfe2..e76b0d0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4029,6 +4029,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    if (matched_count == 0) { // no valid values under mask, is there any cell to be kept?
+        bool default_kept = !FloatEqual(static_cast<T>(default_value_), no_data_value_);
+        if (!use_mask_ext_ || (calc_pos_ && !default_kept)) { return -1; }
+    }
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From 2234029bbd3bc790e060c7a70b85d8a4384b715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 37/89] fix: subsets inherited from mask kept positions of the
 mask when cells were dropped

---
 src/data_raster.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e76b0d0..3cf6564 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4136,7 +4136,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
+    if (mask_has_subset && (upd_header_rowcol || recalc_pos)) {
         recalc_subset = true;
     }
     // Update row and col counts in header information firstly.
@@ -4326,8 +4326,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
+                Release1DArray(it->second->data_);
+                Release2DArray(it->second->data2d_);
                 it->second->alloc_ = true;
             }
             ++it;
-- 
2.43.0


From c03d28f7e796ad720acb1297f8aaa600ae6a79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 38/89] fix: SubsetPositions::Set2DData overflowed when the
 number of layers changed

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3cf6564..d1e778f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1176,7 +1176,10 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (lyr != n_lyrs) {
+            n_lyrs = lyr;
+            Release2DArray(data2d_); // columns may differ
+        }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
-- 
2.43.0


From aa05b08db6e15ba1e34b15b1bce58bbc14a094d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 39/89] fix: combining subsets with their original data always
 failed

---
 src/data_raster.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d1e778f..87e4525 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3011,11 +3011,13 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs_subset = -1;
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         if (!it->second->usable) { continue; }
-        if (!(nullptr != it->second->data_    // Only if all subset have data_
+        if (!(out_origin                      // original data
+            || nullptr != it->second->data_   // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
             || !recls.empty())) {             // or reclassification map specified
             return false;
         }
+        if (out_origin) { continue; } // layers of subset's data do not matter
         if (lyrs_subset < 0) { lyrs_subset = it->second->n_lyrs; }
         else if (it->second->n_lyrs != lyrs_subset) {
             StatusMessage("Error: Subset's layer count MUST be consistent!");
@@ -3079,6 +3081,12 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
                 else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
-- 
2.43.0


From 386f1ed030236637e57ed2777a841940c99f1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 40/89] fix: unusable subsets were reclassified in the combined
 output if default differs from no-data

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 87e4525..0a6f1d2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3064,7 +3064,10 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmprc = tmpr * gncols + tmpc;
                 int tmprc = pos_idx_[gidx];
                 if (!include_nodata) { tmprc = gidx; }
-                if (!recls.empty()) { // first priority
+                if (use_defaultv_directly) {
+                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
+                }
+                else if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
                     int recls_key = it->first; // default reclassification key is subset's ID
                     if (out_origin) {
@@ -3078,9 +3081,6 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     }
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(uniqe_value);
                 }
-                else if (use_defaultv_directly) {
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
-                }
                 else if (out_origin && nullptr != raster_2d_) {
                     data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
                 }
-- 
2.43.0


From d930eef0ac43130bbe361d947216392c39ae22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 41/89] fix: output of individual subsets skipped subsets
 without data and reported success

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0a6f1d2..e94f73f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2979,6 +2979,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, true, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
@@ -3131,6 +3132,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
+        if (lyrs < 0 && lyr_recls > 0) { lyrs = lyr_recls; }
     }
     if (lyrs < 0) {
         StatusMessage("Error: Cannot determine valid layer count!");
-- 
2.43.0


From c4bc90a3e7dff1b7506f62b099bdc35967cbd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 42/89] fix: reclassifying subsets to more layers than the
 raster has read beyond the raster

---
 src/data_raster.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e94f73f..7ccb70a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3029,6 +3029,10 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     if (out_origin) {
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
+        if (nullptr != raster_2d_ && lyrs > n_lyrs_) {
+            StatusMessage("Error: Reclassification layer count MUST NOT exceed the raster's layer count!");
+            return false;
+        }
     } else {
         lyrs = lyrs_subset;
         if (lyrs < 0 && lyr_recls > 0) {
@@ -3130,6 +3134,10 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
     if (out_origin) {
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
+        if (nullptr != raster_2d_ && lyrs > n_lyrs_) {
+            StatusMessage("Error: Reclassification layer count MUST NOT exceed the raster's layer count!");
+            return false;
+        }
     } else {
         lyrs = sub->n_lyrs;
         if (lyrs < 0 && lyr_recls > 0) { lyrs = lyr_recls; }
-- 
2.43.0


From 64373f879ceeb36e81d0fd813b5693ac8157bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 43/89] fix: reading into a raster that already holds data
 overflowed the former data array

---
 src/data_raster.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7ccb70a..357ff6a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2362,6 +2362,17 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        double default_value /* NODATA_VALUE */,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    // release data of the former reading, if any
+    if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
+    stats_calculated_ = false;
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+    ReleaseSubset();
 
     bool readflag = false;
     string srs = string();
@@ -3515,6 +3526,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFile(const string& filename, const bool c
     if (!FileExists(filename)) { return false; }
     if (!initialized_) { InitializeRasterClass(); }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
+    n_lyrs_ = 1;
     return ConstructFromSingleFile(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 }
 
-- 
2.43.0


From 1d216c840f8cadb7370fb8f73fc13b9e9988bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 44/89] fix: ASCII grids whose origin is at -9999 were rejected

---
 src/data_raster.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 357ff6a..d3b366c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -224,6 +224,8 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     double xll = MISSINGFLOAT;
     double yll = MISSINGFLOAT;
     double nodata = MISSINGFLOAT;
+    bool xllfound = false; // -9999 is a coordinate as well
+    bool yllfound = false;
     bool xllcorner = false;
     bool yllcorner = false;
     int rows = -1;
@@ -248,6 +250,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             StringMatch(tokens[0], HEADER_RS_XLLCOR)) {
             if (tokens.size() < 2) { return false; }
             xll = IsDouble(tokens[1], str2value);
+            xllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_XLLCOR)) { xllcorner = true; }
             if (!str2value) { return false; }
         }
@@ -255,6 +258,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             StringMatch(tokens[0], HEADER_RS_YLLCOR)) {
             if (tokens.size() < 2) { return false; }
             yll = IsDouble(tokens[1], str2value);
+            yllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_YLLCOR)) { yllcorner = true; }
             if (!str2value) { return false; }
         }
@@ -291,8 +295,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             }
         }
     }
-    if (rows <= 0 || cols <= 0 || !(cellsize > 0) ||
-        FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
+    if (rows <= 0 || cols <= 0 || !(cellsize > 0) || !xllfound || !yllfound) {
         StatusMessage("Error: Header information incomplete!");
         Release1DArray(values);
         return false;
-- 
2.43.0


From 776e3cf13254e3cf4f40f0a3ce6338384f439e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 45/89] fix: rejected ASCII grids with a broken header line
 behind values left cell values behind

---
 src/data_raster.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d3b366c..9599795 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -237,40 +237,40 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         if (tokens.empty()) { continue; }
         bool str2value = false;
         if (StringMatch(tokens[0], HEADER_RS_NCOLS)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             cols = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_NROWS)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             rows = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_XLL) ||
             StringMatch(tokens[0], HEADER_RS_XLLCOR)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             xll = IsDouble(tokens[1], str2value);
             xllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_XLLCOR)) { xllcorner = true; }
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_YLL) ||
             StringMatch(tokens[0], HEADER_RS_YLLCOR)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             yll = IsDouble(tokens[1], str2value);
             yllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_YLLCOR)) { yllcorner = true; }
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_CELLSIZE)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             cellsize = IsDouble(tokens[1], str2value);
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_NODATA)) {
-            if (tokens.size() < 2) { return false; }
+            if (tokens.size() < 2) { Release1DArray(values); return false; }
             nodata = IsDouble(tokens[1], str2value);
-            if (!str2value) { return false; }
+            if (!str2value) { Release1DArray(values); return false; }
         }
         else {
             if (rows <= 0 || cols <= 0 || rows > INT32_MAX / cols) {
-- 
2.43.0


From 69fa8d0f7313a439ed83965cc2426b6399424d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 46/89] fix: positions could not be looked up by coordinate if
 the origin is at -9999

---
 src/data_raster.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9599795..5b08d44 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2668,10 +2668,7 @@ int clsRasterData<T, MASK_T>::GetPosition(const double x, const double y) {
     int n_rows = GetRows();
     int n_cols = GetCols();
 
-    if (FloatEqual(xll_center, CVT_DBL(NODATA_VALUE))
-        || FloatEqual(yll_center, CVT_DBL(NODATA_VALUE))
-        || FloatEqual(dx, CVT_DBL(NODATA_VALUE))
-        || n_rows < 0 || n_cols < 0) {
+    if (dx <= 0. || n_rows < 0 || n_cols < 0) { // DO NOT check coordinates, -9999 is valid
         StatusMessage("No available header information!");
         return -2;
     }
-- 
2.43.0


From 97a8f97eab2ca50274afe6b3625d12939943eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 47/89] fix: no-data value of integer ASCII grids differed from
 that of the cells beyond six digits

---
 src/data_raster.cpp | 5 +++--
 src/data_raster.hpp | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 552af70..c5681be 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -186,7 +186,7 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
     }
 }
 
-bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
+bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header, const bool is_integer /* = false */) {
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
     std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
@@ -202,7 +202,8 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_NODATA << " " << setprecision(is_integer ? 20 : 6) // same as cell values
+            << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
     return !raster_file.fail();
 }
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5b08d44..5178828 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -324,8 +324,9 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
  * \brief Write raster header information into a ASC file. If the file exists, delete it first.
  * \param[in] filename ASC full file path
  * \param[in] header header information
+ * \param[in] is_integer Cell values are integers, i.e., written with all digits
  */
-bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header);
+bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header, bool is_integer = false);
 
 /*!
  * \brief Write raster data as a single ASC file. If the file exists, delete it first.
@@ -338,7 +339,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     string abs_filename = GetAbsolutePath(filename);
     string dirname = GetPathFromFullName(abs_filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
-    if (!WriteAscHeaders(abs_filename, header)) { return false; }
+    if (!WriteAscHeaders(abs_filename, header, std::numeric_limits<T>::is_integer)) { return false; }
     std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
     if (!raster_file.is_open()) {
         StatusMessage("Error opening file: " + abs_filename);
@@ -3256,7 +3257,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
         if (StringMatch(pre_path, "")) { return false; }
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
             string tmpfilename = AppendCoreFileName(abs_filename, itoa(CVT_VINT(lyr)));
-            if (!WriteAscHeaders(tmpfilename, headers_)) { return false; }
+            if (!WriteAscHeaders(tmpfilename, headers_, std::numeric_limits<T>::is_integer)) { return false; }
             std::ofstream raster_file(tmpfilename.c_str(), std::ios::app | std::ios::out);
             if (!raster_file.is_open()) {
                 StatusMessage("Error opening file: " + tmpfilename);
@@ -3281,7 +3282,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             if (raster_file.fail()) { return false; }
         }
     } else { // 1D raster data
-        if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
+        if (!WriteAscHeaders(abs_filename, headers_, std::numeric_limits<T>::is_integer)) { return false; }
         std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
         if (!raster_file.is_open()) {
             StatusMessage("Error opening file: " + abs_filename);
-- 
2.43.0


From 72944940ad5bc5de990cffa06d652fb711673513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 48/89] fix: 64-bit rasters whose no-data is the maximum of the
 type declared a wrong no-data in GeoTIFF

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5178828..5672126 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -858,11 +858,11 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     // The declared NoData should be exactly what has been written to cells
     if (outtype == RDT_Float) { new_nodata = CVT_DBL(static_cast<float>(new_nodata)); }
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
-    if (outtype == RDT_Int64 && WithinIntegerRange<vint64_t>(new_nodata)) {
-        po_dst_band->SetNoDataValueAsInt64(static_cast<vint64_t>(new_nodata));
+    if (outtype == RDT_Int64) { // INT64_MAX and UINT64_MAX are beyond their ranges as double
+        po_dst_band->SetNoDataValueAsInt64(WithinIntegerRange<vint64_t>(new_nodata) ? static_cast<vint64_t>(new_nodata) : INT64_MAX);
     }
-    else if (outtype == RDT_UInt64 && (WithinIntegerRange<vuint64_t>(new_nodata) || change_nodata)) {
-        po_dst_band->SetNoDataValueAsUInt64(change_nodata ? UINT64_MAX : static_cast<vuint64_t>(new_nodata));
+    else if (outtype == RDT_UInt64) {
+        po_dst_band->SetNoDataValueAsUInt64(WithinIntegerRange<vuint64_t>(new_nodata) ? static_cast<vuint64_t>(new_nodata) : UINT64_MAX);
     }
     else { po_dst_band->SetNoDataValue(new_nodata); }
 #else
-- 
2.43.0


From 5660da2e4e9ac53663c7c80d25fdf3296f5c631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 49/89] Revert "fix: ASCII grids whose origin is at -9999 were
 rejected"

This reverts commit 1d216c840f8cadb7370fb8f73fc13b9e9988bba7.
---
 src/data_raster.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5672126..28c1e03 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -224,8 +224,6 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     double xll = MISSINGFLOAT;
     double yll = MISSINGFLOAT;
     double nodata = MISSINGFLOAT;
-    bool xllfound = false; // -9999 is a coordinate as well
-    bool yllfound = false;
     bool xllcorner = false;
     bool yllcorner = false;
     int rows = -1;
@@ -250,7 +248,6 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             StringMatch(tokens[0], HEADER_RS_XLLCOR)) {
             if (tokens.size() < 2) { Release1DArray(values); return false; }
             xll = IsDouble(tokens[1], str2value);
-            xllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_XLLCOR)) { xllcorner = true; }
             if (!str2value) { Release1DArray(values); return false; }
         }
@@ -258,7 +255,6 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             StringMatch(tokens[0], HEADER_RS_YLLCOR)) {
             if (tokens.size() < 2) { Release1DArray(values); return false; }
             yll = IsDouble(tokens[1], str2value);
-            yllfound = str2value;
             if (StringMatch(tokens[0], HEADER_RS_YLLCOR)) { yllcorner = true; }
             if (!str2value) { Release1DArray(values); return false; }
         }
@@ -295,7 +291,8 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             }
         }
     }
-    if (rows <= 0 || cols <= 0 || !(cellsize > 0) || !xllfound || !yllfound) {
+    if (rows <= 0 || cols <= 0 || !(cellsize > 0) ||
+        FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
         Release1DArray(values);
         return false;
-- 
2.43.0


From 331ef97b3be30bfc51030e75c6ab77821b90398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 50/89] fix: reading layers at the valid cells of a first layer
 without any crashed

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 28c1e03..e274512 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3553,6 +3553,10 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     full_path_ = GetPathFromFullName(filenames[0]) + core_name_ + "_%d." + GetSuffix(filenames[0]);
     // 3. initialize raster_2d_ and read the other layers according to position data if stated,
     //     or just read by row and col
+    if (n_cells_ <= 0 || nullptr == raster_) {
+        StatusMessage("Error: The first layer has no valid cell to locate the other layers!");
+        return false;
+    }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
-- 
2.43.0


From 632ec6c4d5b02510521db061a5411a2a87c93f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 51/89] fix: subsets sharing positions with their source
 released its data twice

---
 src/data_raster.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index c5681be..f1aa43e 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -264,8 +264,9 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+        // data will be released by the destructor and hence cannot be shared
+        if (nullptr != src->data_) { Initialize1DArray(n_cells, data_, src->data_); }
+        if (nullptr != src->data2d_) { Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_); }
     }
 }
 
-- 
2.43.0


From 829c73c9e99217383ea0401a6b5742e242ea1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 52/89] fix: subsets kept outdated cell indexes when the stored
 cells changed afterwards

---
 src/data_raster.hpp | 47 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e274512..6957f9f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1960,6 +1960,12 @@ private:
      */
     void CalculateValidPositionsFromGridData();
 
+    /*!
+     * \brief Update cell indexes of existing subsets after the stored cells have changed
+     * \param[in] cells Grid index (row * ncols + col) of the cells stored before
+     */
+    void UpdateSubsetPositions(const vector<int>& cells);
+
     /*!
      * \brief Prepare combination data array of subsets for output
      */
@@ -3977,6 +3983,41 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    if (!subset_.empty()) { // all cells of the grid were stored till now
+        vector<int> cells(nrows * ncols);
+        for (int i = 0; i < nrows * ncols; i++) { cells[i] = i; }
+        UpdateSubsetPositions(cells);
+    }
+}
+
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::UpdateSubsetPositions(const vector<int>& cells) {
+    vector<int> newidx(GetRows() * GetCols(), -1);
+    for (int i = 0; i < n_cells_; i++) { newidx[nullptr == pos_idx_ ? i : pos_idx_[i]] = i; }
+    for (auto it = subset_.begin(); it != subset_.end();) {
+        SubsetPositions* sub = it->second;
+        int count = 0;
+        for (int i = 0; i < sub->n_cells; i++) {
+            int curidx = newidx[cells.at(sub->global_[i])];
+            if (curidx < 0) { continue; } // no longer stored
+            sub->global_[count] = curidx;
+            sub->local_pos_[count][0] = sub->local_pos_[i][0];
+            sub->local_pos_[count][1] = sub->local_pos_[i][1];
+            sub->local_posidx_[count] = sub->local_posidx_[i];
+            if (nullptr != sub->data_) { sub->data_[count] = sub->data_[i]; }
+            for (int lyr = 0; nullptr != sub->data2d_ && lyr < sub->n_lyrs; lyr++) {
+                sub->data2d_[count][lyr] = sub->data2d_[i][lyr];
+            }
+            count++;
+        }
+        sub->n_cells = count;
+        if (count == 0) {
+            delete sub;
+            subset_.erase(it++);
+        } else {
+            ++it;
+        }
+    }
 }
 
 template <typename T, typename MASK_T>
@@ -4068,6 +4109,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         bool default_kept = !FloatEqual(static_cast<T>(default_value_), no_data_value_);
         if (!use_mask_ext_ || (calc_pos_ && !default_kept)) { return -1; }
     }
+    int old_n_cells = n_cells_;
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
@@ -4079,6 +4121,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Priority DEEP Copy subset of mask data
     map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
     bool mask_has_subset = !mask_subset.empty(); // if mask data has subsets
+    vector<int> old_cells; // cells to which the existing subsets refer
+    if (!mask_has_subset && !subset_.empty() && nullptr != pos_idx_) {
+        for (int i = 0; i < old_n_cells; i++) { old_cells.emplace_back(pos_idx_[i]); }
+    }
     if (mask_has_subset) {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
@@ -4296,6 +4342,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
     }
 
+    if (!old_cells.empty()) { UpdateSubsetPositions(old_cells); }
     if (mask_has_subset) { // check former assigned mask's subset
         for (auto it = subset_.begin(); it != subset_.end();) {
             int count = 0;
-- 
2.43.0


From 803b7c6508e3a208ec9038ccea494e48df965191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 53/89] fix: combining subsets of a full-size raster without
 positions crashed

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6957f9f..df882c3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3082,7 +3082,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
+                int tmprc = nullptr == pos_idx_ ? gidx : pos_idx_[gidx]; // full size without positions
                 if (!include_nodata) { tmprc = gidx; }
                 if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
-- 
2.43.0


From 8dca562d078b7e624bdfd0757e275b044610c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 54/89] fix: GeoTIFF files of rasters full of zeros were read
 as no-data

---
 src/data_raster.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index df882c3..1476757 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -836,6 +836,20 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
+    // The declared NoData should be exactly what is written to cells. It has to be known before writing,
+    //   otherwise blocks full of zeros are taken for empty ones and filled with NoData when closing.
+    if (outtype == RDT_Float) { new_nodata = CVT_DBL(static_cast<float>(new_nodata)); }
+#if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
+    if (outtype == RDT_Int64) { // INT64_MAX and UINT64_MAX are beyond their ranges as double
+        po_dst_band->SetNoDataValueAsInt64(WithinIntegerRange<vint64_t>(new_nodata) ? static_cast<vint64_t>(new_nodata) : INT64_MAX);
+    }
+    else if (outtype == RDT_UInt64) {
+        po_dst_band->SetNoDataValueAsUInt64(WithinIntegerRange<vuint64_t>(new_nodata) ? static_cast<vuint64_t>(new_nodata) : UINT64_MAX);
+    }
+    else { po_dst_band->SetNoDataValue(new_nodata); }
+#else
+    po_dst_band->SetNoDataValue(new_nodata);
+#endif
     CPLErr result = CE_None;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
@@ -852,20 +866,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-    // The declared NoData should be exactly what has been written to cells
-    if (outtype == RDT_Float) { new_nodata = CVT_DBL(static_cast<float>(new_nodata)); }
-#if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
-    if (outtype == RDT_Int64) { // INT64_MAX and UINT64_MAX are beyond their ranges as double
-        po_dst_band->SetNoDataValueAsInt64(WithinIntegerRange<vint64_t>(new_nodata) ? static_cast<vint64_t>(new_nodata) : INT64_MAX);
-    }
-    else if (outtype == RDT_UInt64) {
-        po_dst_band->SetNoDataValueAsUInt64(WithinIntegerRange<vuint64_t>(new_nodata) ? static_cast<vuint64_t>(new_nodata) : UINT64_MAX);
-    }
-    else { po_dst_band->SetNoDataValue(new_nodata); }
-#else
-    po_dst_band->SetNoDataValue(new_nodata);
-#endif
-
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
     geo_trans[1] = header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From 597c233e1de586733c402e7b97bec3b643b59255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 55/89] fix: ASCII grids were appended to an existing file that
 cannot be removed

---
 src/data_raster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index f1aa43e..74425ee 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -189,7 +189,7 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header, const bool is_integer /* = false */) {
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
-    std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
+    std::ofstream raster_file(abs_filename.c_str(), std::ios::trunc | std::ios::out);
     if (!raster_file.is_open()) {
         StatusMessage("Error opening file: " + abs_filename);
         return false;
-- 
2.43.0


From c0566f2e986719392021857f56fa6bf6cbc7cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 56/89] fix: mask_rasterio could not be run by a single
 configuration file

---
 apps/mask_rasterio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..93eb6a1 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
@@ -214,7 +214,6 @@ int main(const int argc, const char** argv) {
         if (tmp_dbl_flag) { continue; }
         arg_sep.push_back(idx);
     }
-    arg_sep.push_back(argc);
 
     map<string, vector<string> > key_args;
     if (arg_sep.empty()) {
@@ -229,6 +228,7 @@ int main(const int argc, const char** argv) {
         }
     }
     else {
+        arg_sep.push_back(argc);
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
             if (tmpargs.empty()) { continue; }
-- 
2.43.0


From 76d6450e6457a00840a009f2fb87b40030859d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 57/89] fix: mask_rasterio took formats for paths and crashed
 on missing values

---
 apps/mask_rasterio.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 93eb6a1..a5c2644 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -85,6 +85,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty() || file_paths[0].empty()) { return false; }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
@@ -97,6 +98,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
             if (tmpfmt == GFS || tmpfmt == SFILE) {
                 // 7: {"file"} or {"gfs"}
                 fmt = tmpfmt;
+                return true; // without any path
             }
             else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
@@ -231,7 +233,10 @@ int main(const int argc, const char** argv) {
         arg_sep.push_back(argc);
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
-            if (tmpargs.empty()) { continue; }
+            if (tmpargs.empty()) {
+                Usage(argv[0], string(argv[*arg_idx]) + " must be followed by its value!");
+                return 1;
+            }
             string key(argv[*arg_idx]);
             if (StringMatch(key, "-configfile")) { continue; }
             key_args.insert(std::make_pair(GetUpper(key.substr(1, string::npos)), tmpargs));
@@ -260,7 +265,7 @@ int main(const int argc, const char** argv) {
             vector<string> tmpconfig = SplitString(tmpstr, '\t'); // Only support \t!!!
             if (tmpconfig.empty() || tmpconfig.size() < 2) {
                 cout << tmpstr << " contains invalid configuration!" << endl;
-                continue;
+                return 1;
             }
             string tmpkey = GetUpper(tmpconfig[0].substr(1, string::npos));
             if (key_args.find(tmpkey) != key_args.end()) { continue; }
@@ -295,10 +300,10 @@ int main(const int argc, const char** argv) {
         }
         else if (itkv->first == "MASK") {
             vector<string> tmppaths;
-            if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)
-                && tmppaths.empty()) {
+            if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)) {
                 return 2;
             }
+            if (tmppaths.empty()) { return 1; }
             mask_path = tmppaths[0];
         }
         else if (itkv->first == "OUT" || itkv->first == "OUTPUT") {
-- 
2.43.0


From ae8cf1090bfd0c174f6d51bda1de9f58cbb92573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 58/89] fix: mask_rasterio ignored the global data type for
 items without their own

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index a5c2644..cbb65f8 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -453,7 +453,7 @@ int main(const int argc, const char** argv) {
             if (!str2num_flag) { tmp_nodata = NODATA_VALUE; }
             else { upd_nodata = true; }
         }
-        RasterDataType tmpouttype = RDT_Unknown;
+        RasterDataType tmpouttype = global_outtype;
         if (outtypeidx > 0) {
             tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx));
             if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
-- 
2.43.0


From 3508b497ee1756df03214f8cd69dfbe1b8740e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 59/89] fix: mask_rasterio decomposed nothing, crashed on
 unusable inputs and reported success

---
 apps/mask_rasterio.cpp | 82 +++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index cbb65f8..6e7468f 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -162,9 +162,11 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
  *   1. Format error of input arguments
  *   2. File specified but not existed, including configuration file and input data files
  *   3. File content loaded failed or wrong format
+ *   4. Output failed
  *
  */
 int main(const int argc, const char** argv) {
+    int status = 0;
     IOMODE mode = MASK;
     int thread_num = 1;
     bool inc_nodata = true;
@@ -477,6 +479,14 @@ int main(const int argc, const char** argv) {
             reclass_data.push_back(do_recls);
             reclass_keyvalues.emplace_back(tmp_recls);
         }
+        else {
+            cout << "Error: Input file specified but not existed: " << (*ioit).at(inidx) << "\n";
+            status = 2;
+        }
+    }
+    if (in_paths.empty()) {
+        if (status == 0) { Usage(argv[0], "No input is specified!"); }
+        return status == 0 ? 1 : status;
     }
 
 #ifdef USE_GDAL
@@ -497,7 +507,8 @@ int main(const int argc, const char** argv) {
             if (nullptr == mask_layer) { return 3; }
 #endif
         } else {
-            // No mask layer
+            cout << "Error: Mask layer specified but not existed: " << mask_path << "\n";
+            return 2;
         }
     }
 
@@ -535,7 +546,9 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) {
+                    rs->SetOutDataType(out_types.at(in_idx));
+                }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
@@ -546,64 +559,67 @@ int main(const int argc, const char** argv) {
 #endif
             }
             else {
+                status = 2;
+                continue;
+            }
+            if (nullptr == rs) {
+                status = 3;
                 continue;
             }
-            if (nullptr == rs) { continue; }
 
             if (update_nodata.at(in_idx)) { rs->ReplaceNoData(nodata_values.at(in_idx)); }
 
-            if (reclass_data.at(in_idx)) {
+            if (reclass_data.at(in_idx) || (output_subset && nullptr == mask_layer)) {
                 rs->BuildSubSet();
             }
 
+            bool out_flag = true;
             if (out_fmts.at(in_idx) == SFILE) {
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToFile(true, false,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToFile(true, false,
+                                                          out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                          default_values.at(in_idx));
                     }
                     if (output_all) {
-                        rs->OutputSubsetToFile(true, true,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToFile(true, true,
+                                                          out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                          default_values.at(in_idx)) && out_flag;
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
-                    if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
+                    if (output_subset) { out_flag = rs->OutputSubsetToFile(true, false, out_paths.at(in_idx)); }
+                    if (output_all) { out_flag = rs->OutputToFile(out_paths.at(in_idx), true) && out_flag; }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, false,
+                                                             reclass_keyvalues.at(in_idx),
+                                                             default_values.at(in_idx));
                     }
                     if (output_all) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, true, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, true,
+                                                             reclass_keyvalues.at(in_idx),
+                                                             default_values.at(in_idx)) && out_flag;
                     }
                 } else {
                     if (output_subset) {
-                        if (nullptr == mask_layer) {
-                            rs->BuildSubSet();
-                        }
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false);
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, false);
                     }
                     if (output_all) {
-                        rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
-                                            inc_nodata, true);
+                        out_flag = rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
+                                                       inc_nodata, true) && out_flag;
                     }
                 }
 #endif
             } else {
                 // Nothing to do
             }
+            if (!out_flag) { status = 4; }
             delete rs;
         } else if (mode == COM) {
             if (nullptr == mask_layer) {
@@ -638,22 +654,24 @@ int main(const int argc, const char** argv) {
                     subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
 #endif
                 } else {
-                    // Nothing to do
+                    status = 2;
                 }
             }
+            bool out_flag = true;
             mask_layer->SetOutDataType(out_types.at(in_idx));
             if (out_fmts.at(in_idx) == SFILE) {
-                mask_layer->OutputToFile(out_paths.at(in_idx), false);
+                out_flag = mask_layer->OutputToFile(out_paths.at(in_idx), false);
             }
             else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                            inc_nodata, false);
+                out_flag = mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                       inc_nodata, false);
 #endif
             }
             else {
                 // Nothing to do
             }
+            if (!out_flag) { status = 4; }
         } else {
             // Nothing to do
         }
@@ -666,5 +684,5 @@ int main(const int argc, const char** argv) {
         delete client;
     }
 #endif
-    return 0;
+    return status;
 }
-- 
2.43.0


From c00c02e97689bce002964ef7147532af551372a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 60/89] fix: mask_rasterio dropped subsets with no-data cells
 when combining

---
 apps/mask_rasterio.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 6e7468f..97dd1f8 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -626,7 +626,8 @@ int main(const int argc, const char** argv) {
                 cout << "Error: The COMBINE mode MUST based on a mask layer!";
                 return 1;
             }
-            mask_layer->SetDefaultValue(default_values.at(in_idx));
+            mask_layer->SetDefaultValue(FloatEqual(default_values.at(in_idx), NODATA_VALUE)
+                                            ? mask_layer->GetNoDataValue() : default_values.at(in_idx));
             map<int, SubsetPositions*>& subset = mask_layer->GetSubset();
             for (auto it = subset.begin(); it != subset.end(); ++it) {
                 it->second->usable = false;
@@ -641,12 +642,22 @@ int main(const int argc, const char** argv) {
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
-                    tmpsubrs = DblRaster::Init(*inf_it, true);
-                    if (nullptr == tmpsubrs) { continue; }
-                    int tmpsublen;
-                    double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    tmpsubrs = DblRaster::Init(*inf_it);
+                    if (nullptr == tmpsubrs) {
+                        status = 3;
+                        continue;
+                    }
+                    // Cells without data must be kept in their places
+                    SubsetPositions* tmpsub = subset.at(subid);
+                    vector<double> tmpsubdata(tmpsub->n_cells, mask_layer->GetNoDataValue());
+                    for (int i = 0; i < tmpsub->n_cells; i++) {
+                        XY_COOR tmpxy = mask_layer->GetCoordinateByRowCol(tmpsub->g_srow + tmpsub->local_pos_[i][0],
+                                                                          tmpsub->g_scol + tmpsub->local_pos_[i][1]);
+                        ROW_COL tmprc = tmpsubrs->GetPositionByCoordinate(tmpxy.first, tmpxy.second);
+                        if (tmprc.first < 0 || tmpsubrs->IsNoData(tmprc.first, tmprc.second)) { continue; }
+                        tmpsubdata[i] = tmpsubrs->GetValue(tmprc.first, tmprc.second);
+                    }
+                    tmpsub->SetData(tmpsub->n_cells, tmpsubdata.data());
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 793ffe7c3ad7e8f6ce77a052b062aacca534792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 61/89] fix: MongoClient::Init opened a second connection and
 failed on host names or unusable addresses

---
 src/db_mongoc.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..7e679c2 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -48,12 +48,12 @@ MongoClient::MongoClient(const char* host, const vuint16_t port) : host_(host),
     assert(IsIpAddress(host));
     // mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host_, port_);
-    conn_ = mongoc_client_new_from_uri(uri);
+    conn_ = uri ? mongoc_client_new_from_uri(uri) : NULL;
 
     mongoc_uri_destroy(uri);
 }
 
-MongoClient::MongoClient(mongoc_client_t* conn): conn_(conn) {
+MongoClient::MongoClient(mongoc_client_t* conn): host_(nullptr), port_(0), conn_(conn) {
     // Do nothing
 }
 
@@ -83,17 +83,15 @@ MongoClient* MongoClient::Init(const char* host, const vuint16_t port) {
     // }
     mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host, port);
+    if (!uri) { return nullptr; }
     mongoc_client_t* conn = mongoc_client_new_from_uri(uri);
-    if (!conn) {
-        mongoc_uri_destroy(uri);
-        mongoc_client_destroy(conn);
-        return nullptr;
-    }
-
     mongoc_uri_destroy(uri);
-    mongoc_client_destroy(conn);
+    if (!conn) { return nullptr; }
 
-    return new MongoClient(host, port);
+    MongoClient* client = new MongoClient(conn);
+    client->host_ = host;
+    client->port_ = port;
+    return client;
 }
 
 MongoClient::~MongoClient() {
-- 
2.43.0


From 6a88ebb1c60b44d06b3d0afead0e34dd47903649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 62/89] fix: MongoClient::GetCollection leaked the database
 handle when the collection is absent

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7e679c2..8cdf676 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -154,6 +154,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
-- 
2.43.0


From 8d425eb8cdca8780cdbf4ba96dd693c40f2396d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 63/89] fix: MongoDatabase::GetCollectionNames dropped the dots
 of GridFS bucket names

---
 src/db_mongoc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 8cdf676..6a0ad2e 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -237,7 +237,10 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
                 string realname;
                 // Refers to https://stackoverflow.com/a/18703743/4837280
                 std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
+                              [&](const std::string &piece){
+                                  if (!realname.empty()) { realname += "."; }
+                                  realname += piece;
+                              });
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
-- 
2.43.0


From 8c718f9910e98a8e6684c3119dacda5b9780ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 64/89] fix: MongoCollection::QueryRecordsCount leaked its
 query

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 6a0ad2e..63721c8 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -281,7 +281,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -289,6 +289,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From 70a33b1e1324d8323ea15fe17bc2029c3085feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 65/89] fix: MongoGridFs::RemoveFile reported success although
 files were left

---
 src/db_mongoc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 63721c8..237ff94 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -343,6 +343,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
         return false;
     }
+    bool removed = true;
     bson_error_t err;
     bson_t filter = BSON_INITIALIZER;
     BSON_APPEND_UTF8(&filter, "filename", gfilename.c_str());
@@ -360,6 +361,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         bson_oid_to_string(&tmpid->value.v_oid, charid);
         string strid = charid;
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
+            removed = false;
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
@@ -367,9 +369,13 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         mongoc_gridfs_file_destroy(gfile);
     }
 
+    if (mongoc_gridfs_file_list_error(filelist, &err)) {
+        removed = false;
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+    }
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
-- 
2.43.0


From 75dd0281dc71af3d3224d677bcbe90083c934418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 66/89] fix: MongoGridFs::GetFileNames crashed without a
 bucket, on files without names, leaked and listed only a part

---
 src/db_mongoc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 237ff94..dfaebcd 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -382,16 +382,23 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
-    //vector<string> filesExisted;
+    vector<string> names;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-        files_existed.emplace_back(string(mongoc_gridfs_file_get_filename(file)));
+        const char* filename = mongoc_gridfs_file_get_filename(file);
+        if (NULL != filename) { names.emplace_back(string(filename)); } // the filename is optional
         mongoc_gridfs_file_destroy(file);
     }
+    bson_error_t err;
+    if (mongoc_gridfs_file_list_error(glist, &err)) { // an incomplete list is of no use
+        StatusMessage((string("MongoGridFs::GetFileNames failed: ") + err.message).c_str());
+    } else {
+        files_existed.insert(files_existed.end(), names.begin(), names.end());
+    }
     mongoc_gridfs_file_list_destroy(glist);
     bson_destroy(query);
     vector<string>(files_existed).swap(files_existed);
-- 
2.43.0


From 1aba9a0890b3c137616b6a1e362ae2b4b697152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 67/89] fix: MongoGridFs::GetFileMetadata crashed on files
 without metadata

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index dfaebcd..694c793 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -419,7 +419,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = NULL == bmata ? NULL : bson_copy(bmata); // the metadata is optional
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
-- 
2.43.0


From 4a697a34a291ecdfdcac00726b730c45b4dba9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 68/89] fix: MongoGridFs::GetStreamData returned incomplete
 data and a buffer that cannot be deleted

---
 src/db_mongoc.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 694c793..2076654 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,7 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <limits>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -442,17 +443,30 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
         return false;
     }
-    datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    int64_t filelength = mongoc_gridfs_file_get_length(gfile);
+    if (filelength < 0 || filelength > std::numeric_limits<vint>::max()) {
+        databuf = NULL;
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed: unsupported length!").c_str());
+        mongoc_gridfs_file_destroy(gfile);
+        return false;
+    }
+    datalength = static_cast<vint>(filelength);
+    databuf = new char[datalength]; // to be released by `delete[]`
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
     mongoc_stream_t* stream = mongoc_stream_gridfs_new(gfile);
     // Set 10 milliseconds for timeout
-    vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
+    ssize_t readsize = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (readsize != datalength) { // failed or incomplete
+        delete[] databuf;
+        databuf = NULL;
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
+        return false;
+    }
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
-- 
2.43.0


From 9176cf6244d49f9f453b3ab27bcbe653473389d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 69/89] fix: MongoGridFs::WriteStreamData crashed when the file
 cannot be created and saved incomplete data

---
 src/db_mongoc.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2076654..e19ebe8 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -478,21 +478,27 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
         return false;
     }
     mongoc_gridfs_file_t* gfile = NULL;
-    bson_error_t gfileerr;
+    bson_error_t gfileerr = {0};
     mongoc_gridfs_file_opt_t gopt = {0};
     gopt.filename = gfilename.c_str();
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
+    if (NULL == gfile) {
+        StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!").c_str());
+        return false;
+    }
     mongoc_iovec_t ovec;
     ovec.iov_base = buf;
     ovec.iov_len = static_cast<u_long>(length);
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+    bool gfilestatus = writesize == length && // Incomplete data should not be saved
+            mongoc_gridfs_file_save(gfile) && // Returns true if successful
             !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
-    if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
+    if (!gfilestatus) { // Failed to save GridFS file data
+        mongoc_gridfs_file_error(gfile, &gfileerr);
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
                           ". ERROR: " + gfileerr.message).c_str());
     }
-- 
2.43.0


From 96fc78a75c9166f3a58d257e0bf2e9af487f333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 70/89] fix: AppendStringOptionsToBson changed integers beyond
 32 bits and non-finite words

---
 src/db_mongoc.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index e19ebe8..98d3507 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -521,13 +521,20 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
         string meta_field;
         if (prefix.empty()) { meta_field = iter->first; }
         else { meta_field = prefix + iter->first; }
+        bool is_int = false;
         bool is_dbl = false;
+        vint64_t int_value = IsInt64(iter->second, is_int);
         double dbl_value = IsDouble(iter->second, is_dbl);
-        if (StringMatch("", iter->second) || !is_dbl) {
+        if (StringMatch("", iter->second) || !is_dbl || !std::isfinite(dbl_value)) {
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
+        } else if (is_int && (int_value < std::numeric_limits<vint32_t>::min() ||
+                              int_value > std::numeric_limits<vint32_t>::max())) {
+            BSON_APPEND_INT64(bson_opts, meta_field.c_str(), int_value);
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0 &&
+                dbl_value >= std::numeric_limits<vint32_t>::min() &&
+                dbl_value <= std::numeric_limits<vint32_t>::max()) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From 78373f070170228a517c85d5b0514dc329b685a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 71/89] fix: GetStringFromBsonIterator cut real numbers to 6
 digits

---
 src/db_mongoc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 98d3507..7996a11 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -555,7 +555,15 @@ string GetStringFromBsonIterator(bson_iter_t* iter) {
         return ValueToString(vv->value.v_int64);
     }
     if (vv->value_type == BSON_TYPE_DOUBLE) {
-        return ValueToString(vv->value.v_double);
+        std::ostringstream oss; // the shortest text that keeps the value
+        oss.precision(std::numeric_limits<double>::digits10);
+        oss << vv->value.v_double;
+        if (strtod(oss.str().c_str(), nullptr) != vv->value.v_double) {
+            oss.str("");
+            oss.precision(std::numeric_limits<double>::digits10 + 2);
+            oss << vv->value.v_double;
+        }
+        return oss.str();
     }
     StatusMessage("bson iterator did not contain or can not convert to string.");
     return "";
-- 
2.43.0


From 6fc267bd7f33c4f2a3fbff9ab3f10e891b78e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 72/89] fix: GetBoolFromBsonIterator inverted numeric texts and
 ignored booleans

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7996a11..4de81de 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -590,11 +590,13 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
+    } else if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool;
     } else {
         StatusMessage("Failed in get Boolean value.");
         return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    return !utils_math::FloatEqual(fltvalue, 0.f);
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
-- 
2.43.0


From 761e6adbcb9e1671fe2129f9ded670b604c08318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 73/89] fix: GetDatetimeFromBsonIterator failed on instants
 before 1970-01-01 00:00:01 and after 2038

---
 src/db_mongoc.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 4de81de..9fcd543 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -611,10 +611,7 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        return CVT_TIMET(vv->value.v_datetime / 1000); // from milliseconds to seconds
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From abeaa490bda33a33e6702a50ce8a32963bfac2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 74/89] fix: GetNumericFromBsonIterator accepted partial
 numbers and converted values out of range

---
 src/db_mongoc.h | 55 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 1f8134b..3e385b2 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -16,6 +16,8 @@
 #define CCGL_DB_MONGOC_H
 #ifdef USE_MONGODB
 
+#include <cmath>
+#include <limits>
 #include <vector>
 #include <map>
 #include <iostream>
@@ -23,6 +25,7 @@
 #include <mongoc.h>
 
 #include "basic.h"
+#include "utils_string.h"
 
 using std::string;
 using std::vector;
@@ -181,6 +184,38 @@ private:
 void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
                                const string& prefix = string());
 
+/*!
+ * \brief Convert a real value to a numeric type
+ * \return false if the value is out of the range of the type
+ */
+template <typename T>
+bool ConvertNumeric(const double value, T& numericvalue) {
+    double lower = static_cast<double>(std::numeric_limits<T>::lowest());
+    double upper = static_cast<double>(std::numeric_limits<T>::max());
+    if (std::numeric_limits<T>::is_integer) {
+        if (!((value >= lower || value > lower - 1.) && value < upper + 1.)) { return false; }
+    } else if (std::isfinite(value) && (value < lower || value > upper)) {
+        return false;
+    }
+    numericvalue = static_cast<T>(value);
+    return true;
+}
+
+/*!
+ * \brief Convert an integer value to a numeric type
+ * \return false if the value is out of the range of the type
+ */
+template <typename T>
+bool ConvertNumeric(const vint64_t value, T& numericvalue) {
+    T converted = static_cast<T>(value);
+    if (std::numeric_limits<T>::is_integer &&
+        (static_cast<vint64_t>(converted) != value || (converted < 0) != (value < 0))) {
+        return false;
+    }
+    numericvalue = converted;
+    return true;
+}
+
 /*!
  * \brief Get numeric value from the iterator (`bson_iter_t`) of `bson_t`according to a given key
  * \param[in] iter Iterator of an instance of `bson_t`
@@ -191,24 +226,24 @@ template <typename T>
 bool GetNumericFromBsonIterator(bson_iter_t* iter, T& numericvalue) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_INT32) {
-        numericvalue = static_cast<T>(vv->value.v_int32);
+        return ConvertNumeric(static_cast<vint64_t>(vv->value.v_int32), numericvalue);
     } else if (vv->value_type == BSON_TYPE_INT64) {
-        numericvalue = static_cast<T>(vv->value.v_int64);
+        return ConvertNumeric(static_cast<vint64_t>(vv->value.v_int64), numericvalue);
     } else if (vv->value_type == BSON_TYPE_DOUBLE) {
-        numericvalue = static_cast<T>(vv->value.v_double);
+        return ConvertNumeric(vv->value.v_double, numericvalue);
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
-        if (tmp.find_first_of("0123456789") == string::npos) {
-            cout << "bson iterator isn't or not contains a numeric value." << endl;
-            return false;
-        }
-        char* end = nullptr;
-        numericvalue = static_cast<T>(strtod(tmp.c_str(), &end));
+        bool is_numeric = false;
+        vint64_t int_value = utils_string::IsInt64(tmp, is_numeric);
+        if (is_numeric) { return ConvertNumeric(int_value, numericvalue); }
+        double dbl_value = utils_string::IsDouble(tmp, is_numeric);
+        if (is_numeric) { return ConvertNumeric(dbl_value, numericvalue); }
+        cout << "bson iterator isn't or not contains a numeric value." << endl;
+        return false;
     } else {
         cout << "bson iterator isn't or not contains a numeric value." << endl;
         return false;
     }
-    return true;
 }
 
 /*!
-- 
2.43.0


From fa8a71df77edfa5a8f481ab155d2efd70aee2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 75/89] fix: ReadGridFsFile accepted metadata that do not
 describe the data and read beyond them

---
 src/data_raster.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1476757..729f2ee 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -959,15 +959,24 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     bson_destroy(bmeta); // Destroy bson of metadata immediately after use
 
-    int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
-    int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
-    int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
-    int n_cells = CVT_INT(header.at(HEADER_RS_CELLSNUM));
-    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0) { // missing essential metadata
+    const char* essential_headers[4] = {HEADER_RS_NROWS, HEADER_RS_NCOLS, HEADER_RS_LAYERS, HEADER_RS_CELLSNUM};
+    for (int i = 0; i < 4; i++) {
+        double curvalue = header.at(essential_headers[i]);
+        if (!(curvalue >= 1. && curvalue <= INT32_MAX) || std::floor(curvalue) != curvalue) {
+            StatusMessage("Missing or invalid essential metadata in MongoDB GridFS!");
+            delete[] buf;
+            return false;
+        }
+    }
+    double full_count = header.at(HEADER_RS_NROWS) * header.at(HEADER_RS_NCOLS);
+    double all_count = header.at(HEADER_RS_CELLSNUM) * header.at(HEADER_RS_LAYERS);
+    if (full_count > INT32_MAX || header.at(HEADER_RS_CELLSNUM) > full_count || all_count > length
+        || length % static_cast<vint>(all_count) != 0) {
+        StatusMessage("Inconsistent metadata and data length in MongoDB GridFS!");
         delete[] buf;
         return false;
     }
-    int value_count = n_cells * n_lyrs;
+    int value_count = CVT_INT(all_count);
     size_t size_dtype = length / value_count;
 
     RasterDataType rstype = RDT_Unknown;
-- 
2.43.0


From 90c14dcd978d08dfd4af1795f4f14b6e695cdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 76/89] fix: WriteStreamDataAsGridfs overflowed on 64-bit and
 unknown types, stored wrapped values and removed the old file first

---
 src/data_raster.hpp | 182 +++++++++++++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 70 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 729f2ee..bf87cce 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -355,6 +355,21 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     return !raster_file.fail();
 }
 
+/*!
+ * \brief Check if a value is within the range of the integer type OUT_T, e.g., -1 is not for vuint8_t
+ */
+template <typename OUT_T, typename T>
+bool WithinIntegerRange(const T val) {
+    typedef std::numeric_limits<OUT_T> lim;
+    if (std::numeric_limits<T>::is_integer) { // DO NOT compare signed with unsigned integers
+        if (val < 0) { return lim::is_signed && static_cast<vint64_t>(val) >= static_cast<vint64_t>(lim::min()); }
+        return static_cast<vuint64_t>(val) <= static_cast<vuint64_t>(lim::max());
+    }
+    double dval = CVT_DBL(val);
+    double dmax = CVT_DBL(lim::max()); // the maximum of 64-bit types is rounded up to 2^63 or 2^64
+    return dval >= CVT_DBL(lim::min()) && (lim::digits > 53 ? dval < dmax : dval <= dmax);
+}
+
 #ifdef USE_GDAL
 /*!
  * \brief Read single raster file by GDAL
@@ -583,21 +598,6 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
-/*!
- * \brief Check if a value is within the range of the integer type OUT_T, e.g., -1 is not for vuint8_t
- */
-template <typename OUT_T, typename T>
-bool WithinIntegerRange(const T val) {
-    typedef std::numeric_limits<OUT_T> lim;
-    if (std::numeric_limits<T>::is_integer) { // DO NOT compare signed with unsigned integers
-        if (val < 0) { return lim::is_signed && static_cast<vint64_t>(val) >= static_cast<vint64_t>(lim::min()); }
-        return static_cast<vuint64_t>(val) <= static_cast<vuint64_t>(lim::max());
-    }
-    double dval = CVT_DBL(val);
-    double dmax = CVT_DBL(lim::max()); // the maximum of 64-bit types is rounded up to 2^63 or 2^64
-    return dval >= CVT_DBL(lim::min()) && (lim::digits > 53 ? dval < dmax : dval <= dmax);
-}
-
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -1048,6 +1048,49 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     return true;
 }
 
+/*!
+ * \brief Convert array data to OUT_T, NoData which cannot be represented is replaced by the default of OUT_T
+ * \return Bytes of the converted data, nullptr if any valid value is out of range or turned into NoData.
+ */
+template <typename OUT_T, typename T>
+char* ConvertGridFsData(const T* values, const int datalength, double& nodata) {
+    typedef std::numeric_limits<OUT_T> lim;
+    double old_nodata = nodata;
+    if (lim::is_integer) {
+        if (!WithinIntegerRange<OUT_T>(old_nodata) || old_nodata != std::floor(old_nodata)) {
+            nodata = DefaultNoDataByType(TypeToRasterDataType(typeid(OUT_T)));
+        }
+    } else if (std::fabs(old_nodata) > CVT_DBL(lim::max()) && std::fabs(old_nodata) <= DBL_MAX) {
+        nodata = MISSINGFLOAT;
+    }
+    // DO NOT convert the double of UINT64_MAX, i.e., 2^64, to 64-bit unsigned integer
+    OUT_T new_nodata = !lim::is_integer || WithinIntegerRange<OUT_T>(nodata) ? static_cast<OUT_T>(nodata) : lim::max();
+    nodata = CVT_DBL(new_nodata);
+    char* buf = new char[datalength * sizeof(OUT_T)];
+    OUT_T* newdata = reinterpret_cast<OUT_T*>(buf);
+    int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+    for (int i = 0; i < datalength; i++) {
+        if (FloatEqual(values[i], static_cast<T>(old_nodata))) {
+            newdata[i] = new_nodata;
+            continue;
+        }
+        if (lim::is_integer) {
+            if (!WithinIntegerRange<OUT_T>(values[i])) { illegal_count += 1; continue; }
+        } else {
+            double absval = std::fabs(CVT_DBL(values[i])); // infinity can be represented
+            if (absval > CVT_DBL(lim::max()) && absval <= DBL_MAX) { illegal_count += 1; continue; }
+        }
+        newdata[i] = static_cast<OUT_T>(values[i]);
+        if (FloatEqual(newdata[i], new_nodata)) { illegal_count += 1; }
+    }
+    if (illegal_count > 0) {
+        delete[] buf;
+        return nullptr;
+    }
+    return buf;
+}
+
 /*!
  * \brief Write array data (both valid and full-sized raster data) as GridFS file.
  *        If the file exists, delete it first.
@@ -1068,12 +1111,63 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
+    // Check DATATYPE in metadata is consistent with T, transform if necessary
+    char* buf = nullptr;
+    size_t size_dtype = sizeof(T);
+    bool transformed = true;
+    double nodata = header.at(HEADER_RS_NODATA);
+    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
+    if (opt_type == temp_type) {
+        buf = reinterpret_cast<char*>(values);
+        transformed = false;
+    } else if (opt_type == RDT_UInt8) {
+        buf = ConvertGridFsData<vuint8_t>(values, datalength, nodata);
+        size_dtype = sizeof(vuint8_t);
+    } else if (opt_type == RDT_Int8) {
+        buf = ConvertGridFsData<vint8_t>(values, datalength, nodata);
+        size_dtype = sizeof(vint8_t);
+    } else if (opt_type == RDT_UInt16) {
+        buf = ConvertGridFsData<vuint16_t>(values, datalength, nodata);
+        size_dtype = sizeof(vuint16_t);
+    } else if (opt_type == RDT_Int16) {
+        buf = ConvertGridFsData<vint16_t>(values, datalength, nodata);
+        size_dtype = sizeof(vint16_t);
+    } else if (opt_type == RDT_UInt32) {
+        buf = ConvertGridFsData<vuint32_t>(values, datalength, nodata);
+        size_dtype = sizeof(vuint32_t);
+    } else if (opt_type == RDT_Int32) {
+        buf = ConvertGridFsData<vint32_t>(values, datalength, nodata);
+        size_dtype = sizeof(vint32_t);
+    } else if (opt_type == RDT_UInt64) {
+        buf = ConvertGridFsData<vuint64_t>(values, datalength, nodata);
+        size_dtype = sizeof(vuint64_t);
+    } else if (opt_type == RDT_Int64) {
+        buf = ConvertGridFsData<vint64_t>(values, datalength, nodata);
+        size_dtype = sizeof(vint64_t);
+    } else if (opt_type == RDT_Float) {
+        buf = ConvertGridFsData<float>(values, datalength, nodata);
+        size_dtype = sizeof(float);
+    } else if (opt_type == RDT_Double) {
+        buf = ConvertGridFsData<double>(values, datalength, nodata);
+        size_dtype = sizeof(double);
+    }
+    if (nullptr == buf || datalength <= 0 || datalength > CVT_DBL(INT32_MAX) / size_dtype) {
+        StatusMessage("Error: " + filename + " has no data or cannot be stored as the specific data type!");
+        if (transformed) { delete[] buf; }
+        return false;
+    }
+    vint buflength = static_cast<vint>(datalength * size_dtype);
+    if (!gfs->RemoveFile(filename, nullptr, curopts)) {
+        if (transformed) { delete[] buf; }
+        return false;
+    }
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
-        if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+        if (StringMatch(HEADER_RS_NODATA, iter->first)) {
+            BSON_APPEND_DOUBLE(&p, iter->first.c_str(), nodata);
+        }
+        else if (std::modf(iter->second, &intpart) == 0.0 && WithinIntegerRange<vint32_t>(iter->second)) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
@@ -1082,58 +1176,6 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             BSON_APPEND_DOUBLE(&p, iter->first.c_str(), iter->second);
         }
     }
-    // Check DATATYPE in metadata is consistent with T, transform if necessary
-    char* buf = nullptr;
-    vint buflength = -1;
-    bool transformed = true;
-    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
-    if (opt_type == temp_type) {
-        buf = reinterpret_cast<char*>(values);
-        buflength = datalength * sizeof(T);
-        transformed = false;
-    } else {
-        if (opt_type == RDT_UInt8) {
-            vuint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint8_t);
-        } else if (opt_type == RDT_Int8) {
-            vint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint8_t);
-        } else if (opt_type == RDT_UInt16) {
-            vuint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint16_t);
-        } else if (opt_type == RDT_Int16) {
-            vint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint16_t);
-        } else if (opt_type == RDT_UInt32) {
-            vuint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint32_t);
-        } else if (opt_type == RDT_Int32) {
-            vint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint32_t);
-        } else if (opt_type == RDT_Float) {
-            float* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(float);
-        } else if (opt_type == RDT_Double) {
-            double* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(double);
-        }
-    }
     // Add user-specific key-values into metadata
     AppendStringOptionsToBson(&p, curopts);
 
-- 
2.43.0


From 4804dcad4f74c66343f576f5f62e78ee50bc9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 77/89] fix: OutputToMongoDB crashed without data or valid
 cells and stored a wrong number of cells

---
 src/data_raster.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index bf87cce..ccb81c5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3427,13 +3427,13 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
                                                const STRING_MAP& opts /* = STRING_MAP() */,
                                                bool include_nodata /* = true */,
                                                bool out_origin /* true */) {
+    if (!ValidateRasterData()) { return false; }
     if (nullptr == gfs) { return false; }
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
     CopyStringMap(opts, options_); // Update metadata
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+    if (RasterDataTypeInOptionals(options_) == RDT_Unknown) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
@@ -3450,6 +3450,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
         SetCalcPositions();
         GetRasterPositionData(&cnt, &pos);
     }
+    if (n_cells_ <= 0) { return false; } // no valid cells
     int n_rows = GetRows();
     int n_cols = GetCols();
     int n_fullsize = n_rows * n_cols;
@@ -3491,7 +3492,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     STRDBL_MAP tmpheader;
     CopyHeader(headers_, tmpheader);
-    if (include_nodata) { UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, n_fullsize); }
+    UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, include_nodata ? n_fullsize : n_cells_);
     bool saved = WriteStreamDataAsGridfs(gfs, core_name, tmpheader,
                                          data_1d, datalength, options_);
     if (outputdirectly) {
-- 
2.43.0


From 27316ab4258c64b608662ddc8bef43c863fd0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 78/89] fix: OutputSubsetToMongoDB reported success although
 subsets were not stored

---
 src/data_raster.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ccb81c5..145055f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3522,8 +3522,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
     else {
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+    if (RasterDataTypeInOptionals(options_) == RDT_Unknown) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
@@ -3538,12 +3537,13 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int sublen;
         bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
                                           out_origin, include_nodata, recls, default_value);
+        if (!flag) { return false; }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
         UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, sublen / sublyrs);
-        flag = flag && WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
-                                               tmpheader, data1d, sublen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
+                                       tmpheader, data1d, sublen, options_);
         Release1DArray(data1d);
         return flag;
     }
@@ -3559,15 +3559,16 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, include_nodata, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_) && flag;
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From a9e6f62b6f088aec8ec34fd50861053539e59af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 79/89] fix: ReadFromMongoDB assigned values to wrong cells of
 masks, leaked former data and kept half-read headers

---
 src/data_raster.hpp | 96 ++++++++++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 145055f..55557f2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1972,6 +1972,11 @@ private:
      */
     void InitializeRasterClass(bool is_2d = false);
 
+    /*!
+     * \brief Release data of the former reading, if any
+     */
+    void ReleaseFormerData();
+
     /*!
      * \brief Initialize read function for ASC, GDAL, and MongoDB
      */
@@ -2176,6 +2181,20 @@ void clsRasterData<T, MASK_T>::InitializeRasterClass(bool is_2d /* = false */) {
     initialized_ = true;
 }
 
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::ReleaseFormerData() {
+    if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
+    stats_calculated_ = false;
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+    ReleaseSubset();
+}
+
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::InitializeReadFunction(const string& filename, const bool calc_pos /* = false */,
                                                       clsRasterData<MASK_T>* mask /* = nullptr */,
@@ -2420,17 +2439,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        double default_value /* NODATA_VALUE */,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
-    // release data of the former reading, if any
-    if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
-    stats_calculated_ = false;
-    if (nullptr != raster_) { Release1DArray(raster_); }
-    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
-    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
-    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
-    pos_data_ = nullptr;
-    pos_idx_ = nullptr;
-    store_pos_ = false;
-    ReleaseSubset();
+    ReleaseFormerData();
 
     bool readflag = false;
     string srs = string();
@@ -3708,27 +3717,37 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             Release1DArray(dbdata);
             return false;
         }
-    } else {
-        CopyHeader(header_dbl, headers_);
     }
-    CopyStringMap(header_str, options_);
 
-    bool include_nodata = !StringMatch(options_.at(HEADER_INC_NODATA), "FALSE");
+    // The file includes NoData or all cells are valid, otherwise, positions are those of the mask
+    int n_rows = CVT_INT(header_dbl.at(HEADER_RS_NROWS));
+    int n_cols = CVT_INT(header_dbl.at(HEADER_RS_NCOLS));
+    int db_ncells = CVT_INT(header_dbl.at(HEADER_RS_CELLSNUM));
+    bool include_nodata = n_rows * n_cols == db_ncells;
+    if (!include_nodata) {
+        int mask_ncells = -1;
+        if (StringMatch(header_str.at(HEADER_INC_NODATA), "FALSE") && nullptr != mask_ && use_mask_ext_
+            && mask_->GetRows() == n_rows && mask_->GetCols() == n_cols) {
+            if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
+            int* mask_pos = nullptr;
+            mask_->GetRasterPositionData(&mask_ncells, &mask_pos);
+        }
+        if (mask_ncells != db_ncells) {
+            Release1DArray(dbdata);
+            return false;
+        }
+    }
+    ReleaseFormerData();
+    CopyHeader(header_dbl, headers_);
+    CopyStringMap(header_str, options_);
 
-    int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-    int n_cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
     n_lyrs_ = CVT_INT(headers_.at(HEADER_RS_LAYERS));
-    // if (n_rows < 0 || n_cols < 0 || n_lyrs_ < 0) { return false; } // Needless
-    int fullsize = n_rows * n_cols;
     no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
-    n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
-
-    if (include_nodata && n_cells_ != fullsize) { return false; }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    n_cells_ = db_ncells;
 
-    // check the valid values count and determine whether we can read directly.
-    bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    // check whether we can read directly.
+    if (!include_nodata) {
+        calc_pos_ = true;
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
@@ -3744,36 +3763,17 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
 #endif
             }
         }
-        mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
-
     if (n_lyrs_ == 1) {
         is_2draster = false;
-        if (include_nodata && !mask_pos_subset) {
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
-#pragma omp parallel for
-            for (int i = 0; i < n_cells_; i++) {
-                //int tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                int tmpidx = pos_idx_[i];
-                raster_[i] = static_cast<T>(dbdata[tmpidx]);
-            }
-            Release1DArray(dbdata);
-        } else {
-            raster_ = dbdata;
-        }
+        raster_ = dbdata;
     } else {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
 #pragma omp parallel for
         for (int i = 0; i < n_cells_; i++) {
-            int tmpidx = i;
-            if (include_nodata && !mask_pos_subset) {
-                //tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                tmpidx = pos_idx_[i];
-            }
             for (int j = 0; j < n_lyrs_; j++) {
-                int idx = tmpidx * n_lyrs_ + j;
+                int idx = i * n_lyrs_ + j;
                 raster_2d_[i][j] = dbdata[idx];
             }
         }
@@ -3781,7 +3781,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         Release1DArray(dbdata);
     }
     CheckDefaultValue();
-    if (include_nodata && mask_pos_subset) {
+    if (include_nodata) {
         return MaskAndCalculateValidPosition() >= 0;
     }
     return true;
-- 
2.43.0


From 578e018559a6344da4f76b265ebcbb15f3373f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 80/89] fix: copying a compact raster without any valid cell
 crashed

---
 src/data_raster.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 55557f2..f314e84 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3842,13 +3842,13 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
     is_2draster = orgraster->Is2DRaster();
-    if (is_2draster) {
+    if (is_2draster && n_cells_ > 0) { // no data if all cells are NoData
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
-    } else {
+    } else if (n_cells_ > 0) {
         Initialize1DArray(n_cells_, raster_, orgraster->GetRasterDataPointer());
     }
-    if (calc_pos_) {
+    if (calc_pos_ && n_cells_ > 0) {
         store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, orgraster->GetRasterPositionDataPointer());
         Initialize1DArray(n_cells_, pos_idx_, orgraster->GetRasterPositionIndexPointer());
-- 
2.43.0


From 13035a46e06066396b4c7a820633a0c4079619dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 81/89] fix: SubsetPositions::ReadFromMongoDB overflowed when
 the number of layers changed

---
 src/data_raster.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 74425ee..11b94bd 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -298,40 +298,32 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
     int nfull = nrows * ncols;
     int db_ncells = CVT_INT(header_dbl.at(HEADER_RS_CELLSNUM));
     int db_nlyrs = CVT_INT(header_dbl.at(HEADER_RS_LAYERS));
-    if ((nfull != db_ncells && n_cells != db_ncells) || db_nlyrs < 0) {
+    if (nfull != db_ncells && n_cells != db_ncells) {
         Release1DArray(dbdata);
         return false;
     }
-    n_lyrs = db_nlyrs;
-    if (n_lyrs == 1) {
-        if (n_cells == db_ncells) {
-            bool set_success = SetData(db_ncells, dbdata);
-            Release1DArray(dbdata);
-            return set_success;
-        }
-        if (nullptr == data_) {
-            Initialize1DArray(n_cells, data_, NODATA_VALUE);
-        }
+    bool fullsize = n_cells != db_ncells; // otherwise, only valid values
+    if (db_nlyrs == 1) {
+        double* subdata = nullptr;
+        Initialize1DArray(n_cells, subdata, NODATA_VALUE);
         for (int i = 0; i < n_cells; i++) {
             //data_[i] = dbdata[local_pos_[i][0] * ncols + local_pos_[i][1]];
-            data_[i] = dbdata[local_posidx_[i]];
+            subdata[i] = dbdata[fullsize ? local_posidx_[i] : i];
         }
+        SetData(n_cells, subdata);
+        Release1DArray(subdata);
     }
     else {
-        if (nullptr == data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, NODATA_VALUE);
-        }
+        double** subdata2d = nullptr;
+        Initialize2DArray(n_cells, db_nlyrs, subdata2d, NODATA_VALUE);
         for (int i = 0; i < n_cells; i++) {
-            for (int j = 0; j < n_lyrs; j++) {
-                if (nfull == db_ncells) { // consider data from MongoDB is fullsize data
-                    //data2d_[i][j] = dbdata[(local_pos_[i][0] * ncols + local_pos_[i][1]) * n_lyrs + j];
-                    data2d_[i][j] = dbdata[local_posidx_[i] * n_lyrs + j];
-                }
-                else { data2d_[i][j] = dbdata[i * n_lyrs + j]; }
+            for (int j = 0; j < db_nlyrs; j++) {
+                subdata2d[i][j] = dbdata[(fullsize ? local_posidx_[i] : i) * db_nlyrs + j];
             }
         }
+        Set2DData(n_cells, db_nlyrs, subdata2d);
+        Release2DArray(subdata2d);
     }
-    usable = true;
     Release1DArray(dbdata);
     return true;
 }
-- 
2.43.0


From b62c685f1989911b0f0e7c744849f985752b9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 82/89] fix: release the buffer when a raster file cannot be
 read to the end

---
 src/data_raster.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f314e84..7cbc7cd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -433,6 +433,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Byte, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uchar_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -456,6 +457,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                        n_cols, n_rows, GDT_Int8, 0, 0);
             if (result != CE_None) {
                 StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+                CPLFree(char_data);
                 GDALClose(po_dataset);
                 return false;
             }
@@ -470,6 +472,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -483,6 +486,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -496,6 +500,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -509,6 +514,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -523,6 +529,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -536,6 +543,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -550,6 +558,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(float_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -563,6 +572,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(double_data);
             GDALClose(po_dataset);
             return false;
         }
-- 
2.43.0


From 66d754f60b2a2943f5e48f57c045f9f1cf34c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:42 +0000
Subject: [PATCH 83/89] fix: converting a text without counterpart in the
 locale wrote beyond its buffer

---
 src/utils_string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index 510f2b5..2bfd7f1 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -218,6 +218,7 @@ vint _wtoa(const wchar_t* w, char* a, vint chars) {
 
 string wtoa(const wstring& wstr) {
     vint len = _wtoa(wstr.c_str(), 0, 0);
+    if (len <= 0) { return string(); } // cannot be converted
     char* buffer = new char[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _wtoa(wstr.c_str(), buffer, int(len));
@@ -236,6 +237,7 @@ vint _atow(const char* a, wchar_t* w, vint chars) {
 
 wstring atow(const string& astr) {
     vint len = _atow(astr.c_str(), 0, 0);
+    if (len <= 0) { return wstring(); } // cannot be converted
     wchar_t* buffer = new wchar_t[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _atow(astr.c_str(), buffer, int(len));
-- 
2.43.0


From 6bb758126aca50a354879daaab62cd379243eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 84/89] fix: a flat description was reported as read when
 memory ran out

---
 src/utils_array.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 8b4c23f..74bff9c 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -453,7 +453,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     int length = idx - 1;
     // New a 1d array to store data
-    Initialize1DArray(length, pool, init_data + 1);
+    if (length > 0 && !Initialize1DArray(length, pool, init_data + 1)) {
+        delete[] cols;
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     // Now point the row pointers to the appropriate positions in the data pool
     int pos = 0;
     for (int i = 0; i < rows; ++i) {
-- 
2.43.0


From 213e8acfc8e38110d2e05ace0730bd0391ea47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 85/89] fix: converting between local and UTC date-times kept
 memory

---
 src/utils_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 432ace8..e35319a 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -421,7 +421,7 @@ DateTime DateTime::ToLocalTime() {
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -442,7 +442,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 04f58700a959de24d5c03a8d6708c38f9928bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 86/89] fix: subsets of a two-dimensional raster of one layer
 could not be written one by one

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7cbc7cd..e03ff1a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3259,7 +3259,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
             else if (out_origin && lyrs == 1 && nullptr != raster_) {
-- 
2.43.0


From 63a14ff1238a2b33112429bec3b149093aeeb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 87/89] fix: data set to a subset were shadowed by data set
 before in the other form

---
 src/data_raster.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e03ff1a..9346fff 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1225,6 +1225,7 @@ public:
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
         if (1 != n_lyrs) { n_lyrs = 1; }
+        if (nullptr != data2d_) { Release2DArray(data2d_); } // superseded
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
         } else {
@@ -1242,6 +1243,7 @@ public:
             n_lyrs = lyr;
             Release2DArray(data2d_); // columns may differ
         }
+        if (nullptr != data_) { Release1DArray(data_); } // superseded
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
@@ -1272,7 +1274,7 @@ public:
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-                if (n_lyrs > 1 && nullptr != data2d_) {
+                if (nullptr != data2d_) {
                     tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
@@ -3177,7 +3179,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (out_origin && nullptr != raster_) {
                     data1d[tmprc * lyrs + ilyr] = raster_[gidx];
                 }
-                else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
+                else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
@@ -3265,7 +3267,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
             else if (out_origin && lyrs == 1 && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
-            else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
+            else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
             }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
-- 
2.43.0


From a56ccff36098b1d8c4bbc9a9cb8c74bc214fcc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 88/89] fix: inherited data of a subset overflowed when the
 number of layers changed

---
 src/data_raster.cpp | 7 +++++++
 src/data_raster.hpp | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 11b94bd..205ce9e 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -287,6 +287,13 @@ SubsetPositions::~SubsetPositions() {
     if (nullptr != data2d_) { Release2DArray(data2d_); }
 }
 
+void SubsetPositions::SetLayers(const int lyr) {
+    if (lyr == n_lyrs) { return; }
+    if (nullptr != data_) { Release1DArray(data_); }
+    if (nullptr != data2d_) { Release2DArray(data2d_); }
+    n_lyrs = lyr;
+}
+
 #ifdef USE_MONGODB
 bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, const STRING_MAP& opts) {
     double* dbdata = nullptr;
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9346fff..3bc38b5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1220,6 +1220,8 @@ public:
 
     bool Initialization();
 
+    void SetLayers(int lyr); ///< Set layer count, data of another layer count are released
+
     template <typename T>
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
@@ -3767,7 +3769,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
             for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
                 SubsetPositions* tmp = new SubsetPositions(it->second, true);
-                tmp->n_lyrs = n_lyrs_;
+                tmp->SetLayers(n_lyrs_);
 #ifdef HAS_VARIADIC_TEMPLATES
                 subset_.emplace(it->first, tmp);
 #else
@@ -4194,7 +4196,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
-            tmp->n_lyrs = n_lyrs_;
+            tmp->SetLayers(n_lyrs_);
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
 #else
-- 
2.43.0


From 7f9b66ffadc32a25859a4231b2212f03da317754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 89/89] fix: a one-layer raster made over a mask of several
 layers kept their number in its header

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3bc38b5..9f6d687 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2384,6 +2384,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
 }
-- 
2.43.0

