From 0ac1fb9a253f75c42b5033d46f082fffab535185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:06 +0000
Subject: [PATCH 01/86] fix: SDT readers hand out copies and accept column
 vectors

SFile_SDT::GetDoubles() returned the array held by the object, which every
caller frees, so reading a variable twice was a use after free (and the copy
it allocated leaked). GetDoubles1D() rejected column vectors and truncated
matrices because of an inverted test.
---
 src/SFile/SFile_SDT.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..8794570 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,12 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    // The array is owned by the caller, so hand out a copy
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
@@ -213,7 +218,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From 3a596950eb6cb8bcac8c9f8519395d91da6324d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:06 +0000
Subject: [PATCH 02/86] fix: SDT files store double precision numbers exactly

Numbers were written with the default six significant digits, and infinities
and NaNs were written but could not be read back.
---
 src/SFile/SFile_SDT.cpp      | 4 ++++
 src/SFile/SFile_SDT.load.cpp | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 8794570..c720a24 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -48,6 +49,9 @@ using namespace std;
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
 
+    // Write as many digits as are needed to recover a double exactly
+    sdtfile.precision(numeric_limits<double>::max_digits10);
+
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..5f9cb19 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -2,6 +2,7 @@
  * Routines for loading/reading SDT files.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -71,7 +72,13 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
             vals[i] = vals[i-1] + ncols;
 
         for (sfilesize_t j = 0; j < ncols; j++) {
-            if (!(ss >> vals[i][j]))
+            // (strtod rather than operator>>, which cannot read 'inf' and 'nan')
+            string token;
+            char *end = nullptr;
+
+            if (ss >> token)
+                vals[i][j] = strtod(token.c_str(), &end);
+            if (end == nullptr || *end != 0)
                 throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
         }
     }
-- 
2.43.0


From 752c8fdd7cf995035a8e16a2aefc489542af41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 03/86] fix: SDT files report open, read, write and close
 errors

Nothing ever looked at the state of the stream: a missing file opened as an
empty one, a read error ended the file early, and a full disk went unnoticed.
---
 include/softlib/SFile_SDT.h  |  3 +++
 src/SFile/SFile_SDT.cpp      | 43 ++++++++++++++++++++++++++++++++++++
 src/SFile/SFile_SDT.load.cpp |  3 +++
 3 files changed, 49 insertions(+)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index 771a6dd..89b8aa5 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -28,6 +28,9 @@ class SFile_SDT : public SFile {
         mat_list_t matrices;
         str_list_t strings;
 
+        void CheckOpen(const std::string&);
+        void CheckWrite(const std::string&);
+
         void Load();
         void LoadMatrix(const std::string&, const sfilesize_t, const sfilesize_t);
         void LoadString(const std::string&, const sfilesize_t);
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index c720a24..d335915 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -48,6 +48,12 @@ using namespace std;
  */
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
+    this->filename = filename;
+
+    // Start from a clean stream, whatever happened to the previous file
+    if (sdtfile.is_open())
+        sdtfile.close();
+    sdtfile.clear();
 
     // Write as many digits as are needed to recover a double exactly
     sdtfile.precision(numeric_limits<double>::max_digits10);
@@ -55,25 +61,59 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
+            CheckOpen(filename);
             Load();
             Close();
             break;
         case SFILE_MODE_UPDATE:
             sdtfile.open(filename, ios::in | ios::out);
+            CheckOpen(filename);
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
+            CheckOpen(filename);
             break;
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
 }
 
+/**
+ * Throws an exception if the file could not be opened.
+ *
+ * filename: Name of file that was opened.
+ */
+void SFile_SDT::CheckOpen(const string& filename) {
+    if (!sdtfile.is_open())
+        throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+}
+
+/**
+ * Throws an exception if the named variable could
+ * not be written to the file.
+ *
+ * name: Name of variable which was written.
+ */
+void SFile_SDT::CheckWrite(const string& name) {
+    if (!sdtfile)
+        throw SFileException("%s: Failed to write variable '%s' to SDT file.", filename.c_str(), name.c_str());
+}
+
 /**
  * Closes the SDT file.
  */
 void SFile_SDT::Close() {
+    if (!sdtfile.is_open())
+        return;
+
+    // In read mode the stream has typically reached its end
+    bool ok = (mode == SFILE_MODE_READ || sdtfile.good());
+
+    sdtfile.clear();
     sdtfile.close();
+
+    if (mode != SFILE_MODE_READ && (!ok || !sdtfile))
+        throw SFileException("%s: Failed to write SDT file.", filename.c_str());
 }
 
 /**
@@ -346,6 +386,7 @@ void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize
     }
 
     sdtfile << endl;
+    CheckWrite(name);
 }
 
 void SFile_SDT::WriteArray(const string& name, const double *const* arr, sfilesize_t nrows, sfilesize_t ncols) {
@@ -381,6 +422,7 @@ void SFile_SDT::WriteAttribute_scalar(const string& datasetname, const string& n
     string att_name = GetAttributeName(datasetname, name);
 
     sdtfile << "@matrix " << att_name << " 1 1" << endl << val << endl << endl;
+    CheckWrite(att_name);
 }
 void SFile_SDT::WriteAttribute_string(const string& datasetname, const string& name, const string& val) {
     string att_name = GetAttributeName(datasetname, name);
@@ -431,5 +473,6 @@ void SFile_SDT::WriteString(const string& name, const string& val) {
         sdtfile << (int)c << " ";
 
     sdtfile << endl << endl;
+    CheckWrite(name);
 }
 
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 5f9cb19..bad147b 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -49,6 +49,9 @@ void SFile_SDT::Load() {
         } else
             throw SFileException("Expected data type specifier, but found token: '%s'.", type.c_str());
     }
+
+    if (sdtfile.bad())
+        throw SFileException("%s: Failed to read SDT file.", filename.c_str());
 }
 
 /**
-- 
2.43.0


From 54abf94c341a7a9d9ea602d9a92296018bdca729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 04/86] fix: SDT strings shorter than declared are rejected

A file cut off inside a string loaded with the shortened string.
---
 src/SFile/SFile_SDT.load.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index bad147b..8349432 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -101,10 +101,9 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
  * in the SDT file.
  *
  * name:   Name to give to string to load.
- * length: Length of string to load (this parameter is not
- *         used but is present to prevent compiler warnings).
+ * length: Length of string to load.
  */
-void SFile_SDT::LoadString(const string &name, const sfilesize_t) {
+void SFile_SDT::LoadString(const string &name, const sfilesize_t length) {
     string line, value;
     int c;
     getline(sdtfile, line);
@@ -113,6 +112,9 @@ void SFile_SDT::LoadString(const string &name, const sfilesize_t) {
     while (ss >> c)
         value += (char)c;
 
+    if (value.size() < length)
+        throw SFileException("The string '%s' is incomplete.", name.c_str());
+
     // Add variable
     SFile_SDT::str str;
     str.name = name;
-- 
2.43.0


From beefa414815c0987b10f12a2b3b2c55b614ad1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 05/86] fix: updating an SDT file keeps the variables already
 in it

In update mode new variables were written over the beginning of the file, and
the variables in it could not be read.
---
 include/softlib/SFile_SDT.h  |  2 ++
 src/SFile/SFile_SDT.cpp      | 12 +++++++++++-
 src/SFile/SFile_SDT.load.cpp |  6 ++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index 89b8aa5..d0a6022 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -25,6 +25,8 @@ class SFile_SDT : public SFile {
 		std::fstream sdtfile;
 		std::string GetAttributeName(const std::string&, const std::string&);
 
+        bool terminated = true;     // Does the loaded file end with a newline?
+
         mat_list_t matrices;
         str_list_t strings;
 
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index d335915..aa8aee9 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -66,8 +66,18 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
             Close();
             break;
         case SFILE_MODE_UPDATE:
-            sdtfile.open(filename, ios::in | ios::out);
+            // Load the variables already in the file...
+            sdtfile.open(filename, ios::in);
+            CheckOpen(filename);
+            Load();
+            sdtfile.close();
+            sdtfile.clear();
+
+            // ...and add new variables after them
+            sdtfile.open(filename, ios::out | ios::app);
             CheckOpen(filename);
+            if (!terminated)
+                sdtfile << endl;
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 8349432..74f1c6b 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -17,7 +17,11 @@ using namespace std;
 void SFile_SDT::Load() {
     string line, type;
 
+    terminated = true;
     while (getline(sdtfile, line)) {
+        // (nothing left to read means that there was no newline)
+        terminated = !sdtfile.eof();
+
         if (line.empty())
             continue;
 
@@ -69,6 +73,7 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
     for (sfilesize_t i = 0; i < nrows; i++) {
         string line;
         getline(sdtfile, line);
+        terminated = !sdtfile.eof();
         stringstream ss(line);
 
         if (i > 0)
@@ -107,6 +112,7 @@ void SFile_SDT::LoadString(const string &name, const sfilesize_t length) {
     string line, value;
     int c;
     getline(sdtfile, line);
+    terminated = !sdtfile.eof();
 
     stringstream ss(line);
     while (ss >> c)
-- 
2.43.0


From c265cb0294d083f1e7b54125f6e671b4fba84283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 06/86] fix: an SDT object opened again forgets its previous
 variables

Variables of the file opened before stayed visible (and hid those of the same
name in the new file), loaded matrices were never freed, and matrices without
rows were written out of bounds.
---
 include/softlib/SFile_SDT.h  |  3 +++
 src/SFile/SFile_SDT.cpp      | 25 +++++++++++++++++++++++--
 src/SFile/SFile_SDT.load.cpp | 19 +++++++++++++------
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index d0a6022..b8905a7 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -33,6 +33,7 @@ class SFile_SDT : public SFile {
         void CheckOpen(const std::string&);
         void CheckWrite(const std::string&);
 
+        void FreeVariables();
         void Load();
         void LoadMatrix(const std::string&, const sfilesize_t, const sfilesize_t);
         void LoadString(const std::string&, const sfilesize_t);
@@ -40,6 +41,8 @@ class SFile_SDT : public SFile {
         template<typename T>
         void WriteNumArray(const std::string&, const T *const*, sfilesize_t, sfilesize_t);
 	public:
+		virtual ~SFile_SDT();
+
 		virtual void Close() override;
 		virtual void CreateStruct(const std::string&) override;
         virtual bool HasVariable(const std::string&) override;
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index aa8aee9..904f7b2 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -40,6 +40,26 @@
 
 using namespace std;
 
+/**
+ * Destructor.
+ */
+SFile_SDT::~SFile_SDT() {
+    FreeVariables();
+}
+
+/**
+ * Forget all loaded variables.
+ */
+void SFile_SDT::FreeVariables() {
+    for (mat_list_t::iterator it = matrices.begin(); it != matrices.end(); it++) {
+        delete [] it->second.value[0];
+        delete [] it->second.value;
+    }
+
+    matrices.clear();
+    strings.clear();
+}
+
 /**
  * Open SDT file.
  *
@@ -54,6 +74,7 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     if (sdtfile.is_open())
         sdtfile.close();
     sdtfile.clear();
+    FreeVariables();
 
     // Write as many digits as are needed to recover a double exactly
     sdtfile.precision(numeric_limits<double>::max_digits10);
@@ -190,7 +211,7 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     dims[0] = it->second.nrows;
     dims[1] = it->second.ncols;
 
-    double **narr = new double*[dims[0]];
+    double **narr = new double*[dims[0] > 0 ? dims[0] : 1];
     narr[0] = new double[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
@@ -216,7 +237,7 @@ T **SFile_SDT_Get_IntArray2D(SFile_SDT *s, const string& name, sfilesize_t *dims
     double **l = s->GetDoubles(name, dims);
 
     // Allocate new array
-    T **a = new T*[dims[0]];
+    T **a = new T*[dims[0] > 0 ? dims[0] : 1];
     a[0] = new T[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         a[i] = a[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 74f1c6b..8b9429c 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -67,8 +67,7 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
-    slibreal_t **vals = new slibreal_t*[nrows];
-    vals[0] = new slibreal_t[nrows*ncols];
+    vector<double> data;
 
     for (sfilesize_t i = 0; i < nrows; i++) {
         string line;
@@ -76,21 +75,29 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
         terminated = !sdtfile.eof();
         stringstream ss(line);
 
-        if (i > 0)
-            vals[i] = vals[i-1] + ncols;
-
         for (sfilesize_t j = 0; j < ncols; j++) {
             // (strtod rather than operator>>, which cannot read 'inf' and 'nan')
             string token;
             char *end = nullptr;
 
             if (ss >> token)
-                vals[i][j] = strtod(token.c_str(), &end);
+                data.push_back(strtod(token.c_str(), &end));
             if (end == nullptr || *end != 0)
                 throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
         }
     }
 
+    // The first of several variables with the same name counts
+    if (matrices.find(name) != matrices.end())
+        return;
+
+    double **vals = new double*[nrows > 0 ? nrows : 1];
+    vals[0] = new double[data.size()];
+    for (sfilesize_t i = 1; i < nrows; i++)
+        vals[i] = vals[i-1] + ncols;
+    for (size_t i = 0; i < data.size(); i++)
+        vals[0][i] = data[i];
+
     // Add variable
     SFile_SDT::matrix mat;
     mat.name = name;
-- 
2.43.0


From f272c9db683312015281d58d49f5a4fe0dfe77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 07/86] fix: HDF5/MAT objects survive a failed open or close

The file pointer was not initialised, so destroying an object whose file could
not be opened crashed; closing twice or after a failed flush used or leaked
the file, as did opening again; SFile::Create() leaked the object.
---
 src/SFile/SFile.cpp          |  7 ++++++-
 src/SFile/SFile_HDF5.cpp     | 23 ++++++++++++++++++++---
 src/SFile/SFile_MAT.HDF5.cpp |  4 ++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..5d9aee1 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -56,7 +56,12 @@ SFile *SFile::Create(const string& filename, enum sfile_mode mode, enum sfile_ty
 	}
 
 	sf->filetype = type;
-	sf->Open(filename, mode);
+	try {
+		sf->Open(filename, mode);
+	} catch (...) {
+		delete sf;
+		throw;
+	}
 
 	return sf;
 }
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..7dcc722 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -15,6 +15,8 @@ using namespace H5;
 using namespace std;
 
 SFile_HDF5::SFile_HDF5() {
+    this->file = nullptr;
+
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
 }
@@ -31,6 +33,10 @@ SFile_HDF5::~SFile_HDF5() {
 void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
 	mode = openmode;
 
+	// Release the file opened previously (if any)
+	delete this->file;
+	this->file = nullptr;
+
 	try {
 		switch (openmode) {
 			case SFILE_MODE_READ:
@@ -56,11 +62,22 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
  * Close the currently open HDF5 file.
  */
 void SFile_HDF5::Close(void) {
-    this->file->flush(H5F_SCOPE_GLOBAL);
-	this->file->close();
-	delete this->file;
+    if (this->file == nullptr)
+        return;
 
+    // Whatever happens, the file is not ours any more
+    H5File *f = this->file;
     this->file = nullptr;
+
+    try {
+        f->flush(H5F_SCOPE_GLOBAL);
+        f->close();
+    } catch (FileIException &error) {
+        delete f;
+        throw SFileException("%s: Unable to close HDF5 file.\n%s", filename.c_str(), error.getCDetailMsg());
+    }
+
+    delete f;
 }
 
 /**
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..c8584ce 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -29,6 +29,10 @@ using namespace std::chrono;
 void SFile_MAT::Open(const string& filename, enum sfile_mode openmode) {
 	mode = openmode;
 
+	// Release the file opened previously (if any)
+	delete this->file;
+	this->file = nullptr;
+
 	try {
 		switch (openmode) {
 			case SFILE_MODE_READ:
-- 
2.43.0


From d95b751781b07b094036be6a3d97ee775a26eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 08/86] fix: HDF5 variables are not reported as absent when
 reading fails

HasVariable() and GetDataType() took every error, such as a failing disk, to
mean that the variable does not exist.
---
 src/SFile/SFile_HDF5.cpp | 72 ++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 7dcc722..5610f1a 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -85,14 +85,29 @@ void SFile_HDF5::Close(void) {
  * in the file.
  */
 bool SFile_HDF5::HasVariable(const string& s) {
-    try {
-        DataSet dset = file->openDataSet(s);
-        dset.close();
-
-        return true;
-    } catch (FileIException &ex) {
-        return false;
+    // Every group on the path must exist (note that failing
+    // to find out is not the same thing as not existing)
+    H5O_type_t type = H5O_TYPE_GROUP;
+    for (size_t i = s.find_first_not_of('/'); i != string::npos; i = s.find_first_not_of('/', i)) {
+        if (type != H5O_TYPE_GROUP)
+            return false;
+
+        i = s.find('/', i);
+        const string path = s.substr(0, i);
+
+        htri_t exists = H5Lexists(file->getId(), path.c_str(), H5P_DEFAULT);
+        if (exists > 0)
+            exists = H5Oexists_by_name(file->getId(), path.c_str(), H5P_DEFAULT);
+
+        if (exists < 0)
+            throw SFileException("%s: Unable to look up the variable '%s'.", filename.c_str(), s.c_str());
+        else if (exists == 0)
+            return false;
+
+        type = file->childObjType(path);
     }
+
+    return (type == H5O_TYPE_DATASET);
 }
 
 /**
@@ -105,29 +120,28 @@ bool SFile_HDF5::HasVariable(const string& s) {
  *       as easily cast as in, e.g. SDT).
  */
 enum SFile::sfile_data_type SFile_HDF5::GetDataType(const string& name, enum sfile_data_type) {
-    try {
-        DataSet dset = file->openDataSet(name);
-        DataType type = dset.getDataType();
-
-        if (type == PredType::STD_I32LE)
-            return SFILE_DATA_INT32;
-        else if (type == PredType::STD_I64LE)
-            return SFILE_DATA_INT64;
-        else if (type == PredType::STD_U32LE)
-            return SFILE_DATA_UINT32;
-        else if (type == PredType::STD_U64LE)
-            return SFILE_DATA_UINT64;
-        else if (type == PredType::IEEE_F64LE)
-            return SFILE_DATA_DOUBLE;
-        else if (type == PredType::C_S1)
-            return SFILE_DATA_STRING;
-        else if (type == PredType::STD_U16LE)
-            return SFILE_DATA_STRING;
-        else
-            return SFILE_DATA_UNDEFINED;
-    } catch (FileIException &ex) {
+    if (!HasVariable(name))
+        return SFILE_DATA_UNDEFINED;
+
+    DataSet dset = file->openDataSet(name);
+    DataType type = dset.getDataType();
+
+    if (type == PredType::STD_I32LE)
+        return SFILE_DATA_INT32;
+    else if (type == PredType::STD_I64LE)
+        return SFILE_DATA_INT64;
+    else if (type == PredType::STD_U32LE)
+        return SFILE_DATA_UINT32;
+    else if (type == PredType::STD_U64LE)
+        return SFILE_DATA_UINT64;
+    else if (type == PredType::IEEE_F64LE)
+        return SFILE_DATA_DOUBLE;
+    else if (type == PredType::C_S1)
+        return SFILE_DATA_STRING;
+    else if (type == PredType::STD_U16LE)
+        return SFILE_DATA_STRING;
+    else
         return SFILE_DATA_UNDEFINED;
-    }
 }
 
 /*******************************
-- 
2.43.0


From 9be215ebd7ceedaa197ab4bad843e0bcfd06397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 09/86] fix: reading an HDF5 array as a matrix, list or string
 checks its rank

Arrays with more than two dimensions overflowed the buffers for the dimensions
and the data; scalars had no dimensions at all.
---
 src/SFile/SFile_HDF5.cpp     | 14 ++++++++++++--
 src/SFile/SFile_MAT.HDF5.cpp |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 5610f1a..12b747d 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -238,7 +238,12 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The variable '%s' has more than two dimensions.", filename.c_str(), name.c_str());
+
+	dims[0] = dims[1] = 1;
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -301,7 +306,12 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The variable '%s' has more than two dimensions.", sf->filename.c_str(), name.c_str());
+
+	d[0] = d[1] = 1;
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index c8584ce..89f5adc 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -198,9 +198,10 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+    dspace.getSimpleExtentDims(dims);
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
@@ -221,6 +222,7 @@ string SFile_MAT::GetString(const string& name) {
         delete [] arr;
 
         s = str;
+        delete [] str;
     } else if (type.getClass() == H5T_STRING) {
         dataset.read(s, type, dspace);
     } else {
-- 
2.43.0


From 33495909881f0af83fb43bd2e09de1b34df7c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 10/86] fix: MAT header names the month of creation

tm_mon counts from zero, so the header named the month before, and read out of
bounds in January.
---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 89f5adc..43cc6a5 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -77,7 +77,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From fcf278a933cd0e844bda7a6af0bf3ae2430cf55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 11/86] fix: failing to write the MAT header is reported

The results of fwrite() and fclose() were ignored (and the header string and
the first H5File leaked).
---
 src/SFile/SFile_MAT.HDF5.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 43cc6a5..4f37324 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -69,7 +69,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
     #define MATLAB_STRING_LENGTH 116
     #define MATLAB_USER_BLOCK_SIZE 512
     #define NMAGIC 3
-    char *s = new char[MATLAB_STRING_LENGTH+1];
+    char s[MATLAB_STRING_LENGTH+1];
     int32_t magic[NMAGIC] = {0x00000000, 0x00000000, 0x4D490200};
     time_point<system_clock> mom = system_clock::now();
     time_t tt = system_clock::to_time_t(mom);
@@ -116,8 +116,8 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
     // Create initial HDF5 file
     FileCreatPropList fcpl(FileCreatPropList::DEFAULT);
     fcpl.setUserblock(MATLAB_USER_BLOCK_SIZE);
-    H5File *hf = new H5File(filename, H5F_ACC_TRUNC, fcpl);
-    hf->close();
+    H5File hf(filename, H5F_ACC_TRUNC, fcpl);
+    hf.close();
 
     // Write file
     FILE *f = fopen(filename.c_str(), "r+b");
@@ -126,16 +126,15 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
         throw SFileException("Unable to create MAT file '%s'.", filename.c_str());
     }
 
-    fwrite(s, 1, MATLAB_STRING_LENGTH, f);
-    fwrite(magic, sizeof(int32_t), NMAGIC, f);
-    fclose(f);
+    bool ok = (fwrite(s, 1, MATLAB_STRING_LENGTH, f) == MATLAB_STRING_LENGTH);
+    ok = ok && (fwrite(magic, sizeof(int32_t), NMAGIC, f) == NMAGIC);
+    ok = (fclose(f) == 0) && ok;
 
-    delete [] s;
+    if (!ok)
+        throw SFileException("Unable to write header of MAT file '%s'.", filename.c_str());
 
     // Re-open using HDF5 API
-    hf = new H5File(filename, H5F_ACC_RDWR);
-
-    return hf;
+    return new H5File(filename, H5F_ACC_RDWR);
 }
 
 /************************
-- 
2.43.0


From c608090708921153a42f9ae0bf7a9a3facd53b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 12/86] fix: multi-dimensional integer arrays can be written to
 MAT files

The class name was written as a second variable of the same name, which always
failed, instead of as the MATLAB_class attribute.
---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 4f37324..243ca9c 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -304,19 +304,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 423bc9aaf8452852a450c3065c83c760e2b8562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 13/86] fix: GetMultiArray() handles one-dimensional and empty
 arrays

With one dimension the index underflowed and read out of bounds; an empty last
dimension divided by zero.
---
 src/SFile/SFile.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 5d9aee1..4f8869d 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -106,26 +106,20 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 		return nullptr;
 
 	// Convert to multidimensional pointer
-	sfilesize_t nel = 1;
-	for (sfilesize_t i = 0; i < ndims; i++)
-		nel *= dims[i];
-
 	// Yes, this is horrible abuse of pointers...
-	double **arr;
-	for (sfilesize_t i = ndims-2; true; i--) {
-		sfilesize_t n = dims[i+1];
-		nel /= n;
+	for (sfilesize_t i = ndims; i > 1; i--) {
+		sfilesize_t n = dims[i-1], nel = 1;
+		for (sfilesize_t j = 0; j < i-1; j++)
+			nel *= dims[j];
 
-		arr = new double*[nel];
+		double **arr = new double*[nel];
 		for (sfilesize_t j = 0; j < nel; j++)
 			arr[j] = ptr + j * n;
 		
 		ptr = (double*)arr;
-
-		if (i == 0) break;
 	}
 
-	return (void*)arr;
+	return (void*)ptr;
 }
 
 /**
-- 
2.43.0


From 23b18aed637c652871c26f641b38f42b69535367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:57 +0000
Subject: [PATCH 14/86] fix: an HDF5 file is not closed twice when closing it
 fails

If H5Fclose() fails the file is gone all the same, and closing it again in the
destructor of H5File crashes inside libhdf5.
---
 src/SFile/SFile_HDF5.cpp     | 13 +++++++++----
 src/SFile/SFile_MAT.HDF5.cpp |  5 +++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 12b747d..0f11e27 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -69,15 +69,20 @@ void SFile_HDF5::Close(void) {
     H5File *f = this->file;
     this->file = nullptr;
 
+    bool ok = true;
     try {
         f->flush(H5F_SCOPE_GLOBAL);
+    } catch (FileIException &error) { ok = false; }
+
+    // HDF5 releases the file even if closing it fails. Closing it once
+    // more, as the destructor of H5File does, is then an invalid operation.
+    try {
         f->close();
-    } catch (FileIException &error) {
         delete f;
-        throw SFileException("%s: Unable to close HDF5 file.\n%s", filename.c_str(), error.getCDetailMsg());
-    }
+    } catch (FileIException &error) { ok = false; }
 
-    delete f;
+    if (!ok)
+        throw SFileException("%s: Unable to write HDF5 file to disk.", filename.c_str());
 }
 
 /**
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 243ca9c..74a9bec 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -116,8 +116,9 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
     // Create initial HDF5 file
     FileCreatPropList fcpl(FileCreatPropList::DEFAULT);
     fcpl.setUserblock(MATLAB_USER_BLOCK_SIZE);
-    H5File hf(filename, H5F_ACC_TRUNC, fcpl);
-    hf.close();
+    H5File *hf = new H5File(filename, H5F_ACC_TRUNC, fcpl);
+    hf->close();        // (if this fails the file must not be closed again by ~H5File)
+    delete hf;
 
     // Write file
     FILE *f = fopen(filename.c_str(), "r+b");
-- 
2.43.0


From 35ff8f1c077657e14272bd3bf73742107e531bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:38 +0000
Subject: [PATCH 15/86] fix: errors while reading a configuration are reported

A file, an included file or standard input which could only be read in
part was presented as the complete configuration. Reading from a failing
standard input looped forever.
---
 .../Configuration/ConfigurationScript.h       |  2 +
 .../Script/ConfigurationScript.cpp            | 39 +++++++++++++------
 src/Configuration/Script/Lexer.cpp            |  5 +--
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..8eebb9a 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -1,6 +1,7 @@
 #ifndef _CONFIGURATION_SCRIPT_H
 #define _CONFIGURATION_SCRIPT_H
 
+#include <fstream>
 #include <vector>
 #include <string>
 
@@ -117,6 +118,7 @@ private:
 
 	std::vector<ConfigToken*> Lex(const std::string&);
 
+	static void ReadAll(std::ifstream&, const std::string&, std::string&);
 	void initbuffer(const std::string&);
 	char nextc();
 	ConfigToken *gettkn(std::string&, ConfigToken*);
diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 175ead4..d968721 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -2,10 +2,11 @@
  * Implementation of the configuration script interpreter.
  */
 
+#include <cstdio>
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
-#include <sstream>
+#include <iterator>
 #include <string>
 #include <vector>
 
@@ -14,6 +15,21 @@
 
 using namespace std;
 
+/**
+ * Read the entire contents of the given file.
+ *
+ * file:     File to read.
+ * filename: Name of file (for error messages).
+ * contents: On return, contains the contents of the file.
+ */
+void ConfigurationScript::ReadAll(ifstream& file, const string& filename, string& contents) {
+	try {
+		contents.assign(istreambuf_iterator<char>(file), istreambuf_iterator<char>());
+	} catch (ios_base::failure& ex) {
+		throw ConfigurationException("Unable to read configuration file: " + filename);
+	}
+}
+
 /**
  * Load configuration from a file.
  *
@@ -24,16 +40,15 @@ void ConfigurationScript::FromFile(const string& filename) {
 		throw ConfigurationException("A configuration file has already been opened with this ConfigurationScript object.");
 
 	ifstream cfile(filename);
-	stringstream buffer;
+	string contents;
 
 	if (!cfile.is_open())
 		throw ConfigurationException("Unable to open configuration file: " + filename);
 	else this->filename = filename;
 
-	buffer << cfile.rdbuf();
+	ReadAll(cfile, filename, contents);
 	cfile.close();
 
-	string contents = buffer.str();
 	FromString(contents, filename);
 }
 
@@ -42,18 +57,18 @@ void ConfigurationScript::FromFile(const string& filename) {
  */
 void ConfigurationScript::FromStdin() {
 #	define _FROMSTDIN_BUFSIZE 1000
-	char *buf = NULL;
-	size_t bufl = 0;
+	char buf[_FROMSTDIN_BUFSIZE];
+	string b;
 
-	while (!cin.eof()) {
-		buf = (char*)realloc(buf, sizeof(char)*(bufl+_FROMSTDIN_BUFSIZE+1));
-		cin.read(buf+bufl, _FROMSTDIN_BUFSIZE);
-		bufl += cin.gcount();
+	while (cin) {
+		cin.read(buf, _FROMSTDIN_BUFSIZE);
+		b.append(buf, cin.gcount());
 	}
 
-	buf[bufl] = 0;
+	// (when synchronized with stdio, 'cin' reports a read error as EOF)
+	if (cin.bad() || ferror(stdin))
+		throw ConfigurationException("Unable to read configuration from stdin.");
 
-	string b = string(buf);
 	FromString(b, "stdin");
 }
 
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..2e2745e 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -133,7 +133,7 @@ void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns)
  */
 vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     ifstream cfile(name);
-    stringstream buf;
+    string contents;
     string oldname, oldbuf;
     size_t bufpos, buflen, linec, charc;
 
@@ -155,11 +155,10 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     charc  = this->charpos;
 
     // Load file
-    buf << cfile.rdbuf();
+    ReadAll(cfile, name, contents);
     cfile.close();
 
     // Lex the file contents
-    string contents = buf.str();
     vector<ConfigToken*> tkns = Lex(contents);
 
     // Remove end-of-file token
-- 
2.43.0


From 1a7a3515179dfad30488ef1fde9a352c5e6938be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:00 +0000
Subject: [PATCH 16/86] fix: a configuration may end with a comment

The last character of a comment not followed by a newline was read again,
which flagged an error or, for an empty comment, looped forever.
---
 src/Configuration/Script/Lexer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 2e2745e..8faa48f 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -42,16 +42,15 @@ char ConfigurationScript::nextc() {
 		// Make sure whitespace and comments are ignored
 		switch (c) {
 			case '#':
-				// Ignore all characters til end-of-line (or file)
-				do {
-					if (this->cnfbufferpos >= this->cnfbufferlength)
+				// Ignore all characters til end-of-line (or file).
+				// The newline is handled in a new iteration.
+				while (this->cnfbufferpos < this->cnfbufferlength) {
+					c = this->cnfbuffer[this->cnfbufferpos];
+					if (c == 0 || c == '\n')
 						break;
 
-					c = this->cnfbuffer[this->cnfbufferpos++];
-				} while (c != 0 && c != '\n');
-
-				// Handle the newline or EOF in a new iteration
-				this->cnfbufferpos--;
+					this->cnfbufferpos++;
+				}
 
 				break;
 			case '\n':
-- 
2.43.0


From 6d042b0a84481183a40f9e97d3d51b7087994703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:00 +0000
Subject: [PATCH 17/86] fix: no token is read past the end of a configuration

An error at the very end of a configuration, or an empty one, made the
interpreter look at the token after end-of-file.
---
 src/Configuration/Script/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..76f6d47 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -36,6 +36,9 @@ bool ConfigurationScript::advance() {
  *   at the first match in this array.
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
+	// If current token is EOF, there is nothing ahead
+	if (tokent() == CTKN_EOF) return false;
+
 	do {
 		ConfigToken *tkn = *(this->tknstream+1);
 
-- 
2.43.0


From 34b564cbede7680b2c09cadccf88f650cfaea283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:00 +0000
Subject: [PATCH 18/86] fix: including configuration files recursively is an
 error

A file which includes itself, directly or through others, was included
until the stack overflowed. A string or include left open in an included
file extended into the including file.
---
 .../softlib/Configuration/ConfigurationScript.h    |  2 ++
 src/Configuration/Script/ConfigurationScript.cpp   |  1 +
 src/Configuration/Script/Lexer.cpp                 | 14 ++++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index 8eebb9a..3991738 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -106,6 +106,8 @@ public:
 	ConfigBlock *FromString(const std::string&, const std::string& src="<unknown>");
 private:
 	/* Lexer properties/methods */
+	static constexpr size_t MAX_INCLUDE_DEPTH = 100;
+	size_t includedepth;	/* Number of included files currently being read */
 	size_t cnfbufferpos, cnfbufferlength,
 		   linecounter,		/* Line number */
 		   charpos;			/* Index of character on line */
diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index d968721..a1c364e 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -80,6 +80,7 @@ void ConfigurationScript::FromStdin() {
  */
 ConfigBlock *ConfigurationScript::FromString(const string& config, const string& src) {
     this->file = src;
+    this->includedepth = 0;
 
 	// Convert the string to a stream of tokens
 	vector<ConfigToken*> tkns = Lex(config);
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 8faa48f..f1062ee 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -135,6 +135,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     string contents;
     string oldname, oldbuf;
     size_t bufpos, buflen, linec, charc;
+    bool prevw;
 
     if (!cfile.is_open())
         throw ConfigurationException(
@@ -143,6 +144,13 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
             name.c_str()
         );
 
+    if (this->includedepth >= MAX_INCLUDE_DEPTH)
+        throw ConfigurationException(
+            this->linecounter, this->charpos, this->filename,
+            "Included configuration files are nested too deeply: '%s'.",
+            name.c_str()
+        );
+
     // Save current state
     oldname = this->filename;
     this->filename = name;
@@ -152,18 +160,24 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     buflen = this->cnfbufferlength;
     linec  = this->linecounter;
     charc  = this->charpos;
+    prevw  = this->prevws;
 
     // Load file
     ReadAll(cfile, name, contents);
     cfile.close();
 
     // Lex the file contents
+    this->includedepth++;
     vector<ConfigToken*> tkns = Lex(contents);
+    this->includedepth--;
 
     // Remove end-of-file token
     tkns.pop_back();
 
     // Restore old state
+    this->instring = false;
+    this->ininclude = false;
+    this->prevws = prevw;
     this->charpos = charc;
     this->linecounter = linec;
     this->cnfbufferlength = buflen;
-- 
2.43.0


From c9d255d4e96a8641409ab5861aa4c4d2269e68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 19/86] fix: long exception messages are complete and out of
 memory is handled

The last character of messages of 1000 characters and more was lost, the
buffer was leaked and a failed allocation of it crashed.
---
 include/softlib/SOFTLibException.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..b1b85f1 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -1,8 +1,11 @@
 #ifndef _SOFTLIB_EXCEPTION_H
 #define _SOFTLIB_EXCEPTION_H
 
+#include <cstdio>
 #include <exception>
 #include <string>
+#include <utility>
+#include <vector>
 
 class SOFTLibException : public std::exception {
 	public:
@@ -21,18 +24,16 @@ class SOFTLibException : public std::exception {
         void ConstructErrorMessage(const std::string& msg, Args&& ... args) {
 			#define SOFTLIBEXCEPTION_BUFFER_SIZE 1000
 			int n;
-			char *buffer;
+			std::vector<char> buffer(SOFTLIBEXCEPTION_BUFFER_SIZE);
 
-			buffer = (char*)malloc(sizeof(char)*SOFTLIBEXCEPTION_BUFFER_SIZE);
-
-			n = snprintf(buffer, SOFTLIBEXCEPTION_BUFFER_SIZE, msg.c_str(), std::forward<Args>(args) ...);
+			n = snprintf(buffer.data(), buffer.size(), msg.c_str(), std::forward<Args>(args) ...);
 			if (n < 0) {	// Encoding error. Just save error message unformatted.
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
-				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
-				this->errormsg = buffer;
-			} else this->errormsg = buffer;
+				buffer.resize(n+1);
+				n = snprintf(buffer.data(), buffer.size(), msg.c_str(), std::forward<Args>(args) ...);
+				this->errormsg = buffer.data();
+			} else this->errormsg = buffer.data();
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From 12e199e6484e1caebcc48028e399a538026586da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:48 +0000
Subject: [PATCH 20/86] fix: quoted configuration values are taken literally

A quoted value consisting of a single special character, such as ";",
was taken for that symbol and an empty quoted value was dropped.
---
 .../softlib/Configuration/ConfigurationScript.h  |  4 ++--
 src/Configuration/Script/Lexer.cpp               | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index 3991738..87e6419 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -123,8 +123,8 @@ private:
 	static void ReadAll(std::ifstream&, const std::string&, std::string&);
 	void initbuffer(const std::string&);
 	char nextc();
-	ConfigToken *gettkn(std::string&, ConfigToken*);
-	void pushbuffer(std::string&, std::vector<ConfigToken*>&);
+	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
+	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
 	/* Interpreter properties/methods */
 	std::vector<ConfigToken*>::iterator tknstream;
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index f1062ee..ff6cfce 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -74,9 +74,11 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
-ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
+ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
 	// First we check for simple tokens
-	if (s == "=") {
+	if (quoted) {
+		// (quoted text is never a simple token)
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -108,16 +110,16 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	// Else, it must be a name.
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
-void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns, bool quoted) {
+	if (buffer.empty() && !quoted) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
 		//tkns.push_back(gettkn(buffer, NULL));
-        ct = gettkn(buffer, nullptr);
+        ct = gettkn(buffer, nullptr, quoted);
 	else
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
-        ct = gettkn(buffer, tkns.back());
+        ct = gettkn(buffer, tkns.back(), quoted);
 
     tkns.push_back(ct);
 }
@@ -211,7 +213,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 
 		switch (c) {
 			case '"': {
-				pushbuffer(buffer, tkns);
+				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
 				this->instring = !this->instring;
 			} break;
-- 
2.43.0


From f8388a865c289a227ede1170dd732ffb48f97b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 21/86] fix: failing to write a PPM image is reported

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..bec793c 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
@@ -45,4 +47,6 @@ void ImageGeneratorPPM::SaveImage(
     }
 
     file.close();
+    if (!file)
+        throw SOFTLibException("Unable to write PPM.");
 }
-- 
2.43.0


From 5425a3169e6fe463f6926f90d2787cbae620020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 22/86] fix: failing to write a PNG image is reported and
 closes the file

---
 src/ImageGenerator/ImageGeneratorPNG.cpp | 33 ++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/ImageGenerator/ImageGeneratorPNG.cpp b/src/ImageGenerator/ImageGeneratorPNG.cpp
index ba59e96..ddc2fb7 100644
--- a/src/ImageGenerator/ImageGeneratorPNG.cpp
+++ b/src/ImageGenerator/ImageGeneratorPNG.cpp
@@ -29,19 +29,36 @@ void ImageGeneratorPNG::SaveImage(
     }
 
     FILE *f = fopen(name.c_str(), "wb");
-    if (!f)
+    if (!f) {
+        delete [] png->pixels;
+        delete png;
         throw SOFTLibException("Unable to create PNG file.");
+    }
 
     png_structp png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
-    if (png_ptr == NULL)
+    if (png_ptr == NULL) {
+        fclose(f);
+        delete [] png->pixels;
+        delete png;
         throw SOFTLibException("Unable to create PNG 'write struct'.");
+    }
 
     png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (info_ptr == NULL)
+    if (info_ptr == NULL) {
+        png_destroy_write_struct(&png_ptr, NULL);
+        fclose(f);
+        delete [] png->pixels;
+        delete png;
         throw SOFTLibException("Unable to create PNG 'info struct'.");
+    }
 
-    if (setjmp(png_jmpbuf(png_ptr)))
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        png_destroy_write_struct(&png_ptr, &info_ptr);
+        fclose(f);
+        delete [] png->pixels;
+        delete png;
         throw SOFTLibException("Unable to write PNG.");
+    }
 
     int depth = 8;
     png_set_IHDR(
@@ -82,6 +99,12 @@ void ImageGeneratorPNG::SaveImage(
     png_free(png_ptr, row_pointers);
 
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(f);
+    delete [] png->pixels;
+    delete png;
+
+    // Data may be written to disk as late as when closing the file
+    bool failed = (ferror(f) != 0);
+    if (fclose(f) != 0 || failed)
+        throw SOFTLibException("Unable to write PNG.");
 }
 
-- 
2.43.0


From 23b06c02eeb7655af023afa91a54f4f926fc6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 23/86] fix: images can be generated with the default colormap
 and any intensity

No colormap crashed, intensities far above the range were drawn as the
lowest one and ranges not starting at zero were mapped wrongly.
---
 include/softlib/ImageGenerator/ImageColormap.h |  3 ++-
 src/ImageGenerator/ImageGenerator.cpp          | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..8c3e6bb 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,7 +35,8 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
+        // (limit the range before converting to integer)
+        i = fmin(fmax((v-vmin)/(vmax-vmin), 0), 1) * (ncolors-1);
         l = floor(i);
 
         scolor_t clr;
diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..eeb1e0d 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -2,6 +2,7 @@
  * Implementation of the common 'ImageGenerator' interface 'gen()'.
  */
 
+#include <memory>
 #include <softlib/config.h>
 #include <softlib/ImageGenerator/ImageGenerator.h>
 #ifdef HAS_LIBPNG
@@ -26,17 +27,18 @@ void ImageGenerator::gen(
     enum image_type type, const std::string& name, const slibreal_t *img,
     const unsigned int nrows, const unsigned int ncols, enum colormap_type colormap
 ) {
-    ImageGenerator *igen = GetImageGenerator(type);
+    std::unique_ptr<ImageGenerator> igen(GetImageGenerator(type));
     igen->SaveImage(name, img, nrows, ncols, colormap);
-    delete igen;
 }
 void ImageGenerator::gen(
     enum image_type type, const std::string& name, const slibreal_t *img,
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
-    ImageGenerator *igen = GetImageGenerator(type);
+    std::unique_ptr<ImageGenerator> igen(GetImageGenerator(type));
+    if (colormap == nullptr)
+        colormap = igen->cmap_gerimap;
+
     igen->SaveImage(name, img, nrows, ncols, colormap);
-    delete igen;
 }
 
 /**
-- 
2.43.0


From c75b58bfe7d86ab05a0bb725d9bfffb1798cb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 24/86] fix: finding the maximum radius stays within the domain
 contour

For contours crossing the level of the magnetic axis at their first point
a third crossing was written beyond the array of two, and the point after
the last one was read.
---
 src/MagneticField/MagneticField2D.cpp | 52 ++++++++++++---------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..2dc5e55 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -208,42 +208,36 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
+	unsigned int i, j;
 	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
+	slibreal_t rmx=0, rmn=0, rp;
+	bool found = false;
 
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
+	// (the last segment connects the last and first points)
+	for (i = 0; i < n; i++) {
+		j = (i+1 < n ? i+1 : 0);
+
+		if ((z[i] >= za && z[j] <= za) ||
+			(z[i] <= za && z[j] >= za)) {
+			if (z[j] == z[i])
+				rp = max(r[i], r[j]);
 			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
+				rp = r[i] + (r[j]-r[i]) * (za-z[i])/(z[j]-z[i]);
+
+			// Find max & min radii
+			if (!found || rp > rmx)
+				rmx = rp;
+			if (!found || rp < rmn)
+				rmn = rp;
+			found = true;
 		}
 	}
 
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
-	if (ir == 0)
+	if (!found)
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
 
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
-	}
+	this->maxradius = rmx;
+	this->minradius = rmn;
 
 	return this->maxradius;
 }
@@ -298,7 +292,7 @@ void MagneticField2D::FindMaxMin(
 	unsigned int i, ix;
 	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
 
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
+	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXXPOINTS; i++) {
 		if ((y[i] >= a && y[i+1] <= a) ||
 			(y[i] <= a && y[i+1] >= a)) {
 			if (y[i+1] == y[i])
-- 
2.43.0


From 08fac168bd4b98ccdb22295c9f7742408b685da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 25/86] fix: domain bounds follow a change of domain

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 2dc5e55..a408cfe 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -454,6 +454,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->rdomain = rd;
     this->zdomain = zd;
     this->ndomain = nd;
+    this->bounds_set = false;
 
 	this->FindMaxRadius();
 }
-- 
2.43.0


From 7768189a6675a43c0d81d57eed7d678581de77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 26/86] fix: the flux of an analytical field is sampled along
 with the field

ToNumeric2D() left the flux of the numeric field uninitialized.
---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..5462fc3 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From 7befe097c7e4ff94562e0517567dfb425b4d2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 27/86] fix: optional parts of an equilibrium are not dropped
 when reading fails

Flux, wall, separatrix and verification vectors which could not be read
were taken to be absent, and the file stayed open when loading failed.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 27 ++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..49216ec 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <cmath>
+#include <memory>
 #include <string>
 using namespace std;
 
@@ -492,7 +493,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
         *_verBr=nullptr, *_verBphi=nullptr, *_verBz=nullptr;
 	sfilesize_t fs[2], i, j, nverBr=0, nverBphi=0, nverBz=0;
 
-	SFile *sf = SFile::Create(filename, SFILE_MODE_READ, ftype);
+	unique_ptr<SFile> sf(SFile::Create(filename, SFILE_MODE_READ, ftype));
 
 	/* Load all variables (to native types) */
 	name = sf->GetString("name");
@@ -518,25 +519,25 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
-    try {
+    if (sf->HasVariable("Psi")) {
         _Psi = sf->GetDoubles("Psi", fs);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
-    } catch (SFileException& ex) {}
+    }
 
     /* Load verification vectors (if present) */
-    try {
+    if (sf->HasVariable("verBr")) {
         _verBr = sf->GetList("verBr", fs);
         nverBr = fs[0];
-	} catch (SFileException& ex) {}
-    try {
+    }
+    if (sf->HasVariable("verBphi")) {
         _verBphi = sf->GetList("verBphi", fs);
         nverBphi = fs[0];
-    } catch (SFileException& ex) {}
-    try {
+    }
+    if (sf->HasVariable("verBz")) {
         _verBz = sf->GetList("verBz", fs);
         nverBz = fs[0];
-    } catch (SFileException& ex) {}
+    }
 
     /* Verify magnetic fields (check along R dimension) */
     if (nverBr > this->nr)
@@ -564,7 +565,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
     delete [] _verBphi;
     delete [] _verBz;
 
-	try {
+	if (sf->HasVariable("wall")) {
 		_temp = sf->GetDoubles("wall", fs);
         if (fs[0] == 2) {
             _rwall = _temp[0];
@@ -584,13 +585,13 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             delete [] _temp[0];
             delete [] _temp;
         }
-	} catch (SFileException& ex) {
+	} else {
 		this->nwall = 0;
 		this->rwall = nullptr;
 		this->zwall = nullptr;
 	}
 
-	try {
+	if (sf->HasVariable("separatrix")) {
 		_temp = sf->GetDoubles("separatrix", fs);
         if (fs[0] == 2) {
             _rsep = _temp[0];
@@ -610,7 +611,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             delete [] _temp[0];
             delete [] _temp;
         }
-	} catch (SFileException& ex) {
+	} else {
 		this->nsep = 0;
 		this->rsep = nullptr;
 		this->zsep = nullptr;
-- 
2.43.0


From 96436ff72388935cc0d35a1bba8762731ed8eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 28/86] fix: an equilibrium without flux can be saved, and is
 closed in any case

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 22 +++++++-------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 49216ec..028cb77 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <memory>
 #include <string>
+#include <vector>
 using namespace std;
 
 #include <softlib/config.h>
@@ -736,7 +737,7 @@ void MagneticFieldNumeric2D::Save(const string& filename) {
 	Save(filename, SFile::TypeOfFile(filename));
 }
 void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype) {
-	SFile *sf = SFile::Create(filename, SFILE_MODE_WRITE, ftype);
+	unique_ptr<SFile> sf(SFile::Create(filename, SFILE_MODE_WRITE, ftype));
 	sfilesize_t dims[2] = {this->nz, this->nr};
 
 	sf->WriteMultiArray("Bphi", this->Bphi, 2, dims);
@@ -748,7 +749,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (HasMagneticFlux())
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
@@ -758,9 +760,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 	sf->WriteList("verBz",   this->Bz,   this->nr);
 
 	if (this->nsep > 0) {
-		double **separatrix = new double*[2];
-		separatrix[0] = new double[2*this->nsep];
-		separatrix[1] = separatrix[0] + this->nsep;
+		vector<double> data(2*this->nsep);
+		double *separatrix[2] = {data.data(), data.data() + this->nsep};
 
 		for (unsigned int i = 0; i < this->nsep; i++) {
 			separatrix[0][i] = rsep[i];
@@ -768,15 +769,11 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 		}
 
 		sf->WriteArray("separatrix", separatrix, 2, this->nsep);
-
-		delete [] separatrix[0];
-		delete [] separatrix;
 	}
 
 	if (this->nwall > 0) {
-		double **wall = new double*[2];
-		wall[0] = new double[2*this->nwall];
-		wall[1] = wall[0] + this->nwall;
+		vector<double> data(2*this->nwall);
+		double *wall[2] = {data.data(), data.data() + this->nwall};
 
 		for (unsigned int i = 0; i < this->nwall; i++) {
 			wall[0][i] = rwall[i];
@@ -784,9 +781,6 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 		}
 
 		sf->WriteArray("wall", wall, 2, this->nwall);
-
-		delete [] wall[0];
-		delete [] wall;
 	}
 
 	sf->Close();
-- 
2.43.0


From d0a0bc8f00e54c6ffa800747d6c2cbdc95b55c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:17 +0000
Subject: [PATCH 29/86] fix: LUKE equilibrium and wall files are closed after
 loading

---
 src/MagneticField/MagneticFieldLUKE.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index cfc1963..eb6860d 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -41,6 +41,7 @@
  * xypsin array to get the corresponding poloidal flux value.
  */
 
+#include <memory>
 #include <string>
 #include <softlib/MagneticField/MagneticFieldLUKE.h>
 #include <softlib/SFileException.h>
@@ -95,7 +96,7 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const string& wallname, enum sfile_type walltype) {
 	sfilesize_t fs[2];
 
-	SFile *sf = SFile::Create(name, SFILE_MODE_READ, type);
+	unique_ptr<SFile> sf(SFile::Create(name, SFILE_MODE_READ, type));
 	
 	this->name = sf->GetString("equil/id");
 	this->description = this->name;
@@ -278,7 +279,8 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	delete [] _Bt[0], delete [] _Bt;
 	delete [] _Bz[0], delete [] _Bz;
 
-	delete [] _pty, delete [] _ptx;
+	delete [] _pty[0], delete [] _pty;
+	delete [] _ptx[0], delete [] _ptx;
 
 	LoadWall(wallname, walltype);
 }
@@ -301,7 +303,7 @@ void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltyp
 	this->zwall = nullptr;
 
 	if (!wallname.empty()) {
-		SFile *sf = SFile::Create(wallname, SFILE_MODE_READ, walltype);
+		unique_ptr<SFile> sf(SFile::Create(wallname, SFILE_MODE_READ, walltype));
 		sfilesize_t fs[2];
 		
 		double **_wall = sf->GetDoubles("wall", fs);
-- 
2.43.0


From 98e801976cd21bb1387a80d9089a1ac385463125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:14 +0000
Subject: [PATCH 30/86] fix: cloning an equilibrium without wall or separatrix
 keeps its domain

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 028cb77..b9d31c3 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -117,7 +117,7 @@ MagneticFieldNumeric2D::MagneticFieldNumeric2D(
 MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     unsigned int i, nB;
     slibreal_t *nR, *nZ, *nBr, *nBphi, *nBz, *nPsi=nullptr,
-        *nrsep, *nzsep, *nrwall, *nzwall;
+        *nrsep=nullptr, *nzsep=nullptr, *nrwall=nullptr, *nzwall=nullptr;
 
     nB     = this->nr*this->nz;
     nR     = new slibreal_t[this->nr];
@@ -125,10 +125,14 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+    if (this->nsep > 0) {
+        nrsep  = new slibreal_t[this->nsep];
+        nzsep  = new slibreal_t[this->nsep];
+    }
+    if (this->nwall > 0) {
+        nrwall = new slibreal_t[this->nwall];
+        nzwall = new slibreal_t[this->nwall];
+    }
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From dcb615f3775f62500483b9c3d5d0bf2e991cf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:14 +0000
Subject: [PATCH 31/86] fix: clones of a magnetic field keep the domain that
 was set

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 16 +++++++++++++++-
 src/MagneticField/MagneticFieldNumeric2D.cpp    | 12 +++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 5462fc3..78b38c4 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -4,6 +4,7 @@
  * magnetic fields can be derived.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
 
@@ -65,13 +66,26 @@ MagneticFieldAnalytical2D::MagneticFieldAnalytical2D(
  * Deep-clones this magnetic field object.
  */
 MagneticFieldAnalytical2D *MagneticFieldAnalytical2D::Clone() {
-    return new MagneticFieldAnalytical2D(
+    MagneticFieldAnalytical2D *mf = new MagneticFieldAnalytical2D(
         this->B0, this->Rm, this->maxis_z, this->rminor,
 		((this->sigmaB>0)?MFAFS_CCW:MFAFS_CW),
 		((this->sigmaI>0)?MFAFS_CCW:MFAFS_CW),
         this->safety_factor_type, this->safety_factor_param1,
         this->safety_factor_param2, this->name, this->description
     );
+
+    // Keep domain and separatrix, if other ones have been set
+    unsigned int nd = GetNDomain(), ns = GetNSeparatrix();
+    if (nd != mf->GetNDomain() ||
+        !equal(GetRDomain(), GetRDomain()+nd, mf->GetRDomain()) ||
+        !equal(GetZDomain(), GetZDomain()+nd, mf->GetZDomain()))
+        mf->SetDomain(GetRDomain(), GetZDomain(), nd);
+    if (ns != mf->GetNSeparatrix() ||
+        !equal(GetRSeparatrix(), GetRSeparatrix()+ns, mf->GetRSeparatrix()) ||
+        !equal(GetZSeparatrix(), GetZSeparatrix()+ns, mf->GetZSeparatrix()))
+        mf->SetSeparatrix(GetRSeparatrix(), GetZSeparatrix(), ns);
+
+    return mf;
 }
 
 /**
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index b9d31c3..6760e80 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -160,7 +160,7 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
             nPsi[i] = this->Psi[i];
     }
 
-    return new MagneticFieldNumeric2D(
+    MagneticFieldNumeric2D *mf = new MagneticFieldNumeric2D(
         this->name, this->description,
         nR, nZ, this->nr, this->nz,
         nBr, nBphi, nBz, nPsi,
@@ -168,6 +168,16 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
         nrsep, nzsep, this->nsep,
         nrwall, nzwall, this->nwall
     );
+
+    // Keep domain and separatrix, if other ones have been set
+    if (GetRDomain() != this->rwall && GetRDomain() == this->rsep)
+        mf->SetDomain(mf->rsep, mf->zsep, GetNDomain());
+    else if (GetRDomain() != this->rwall)
+        mf->SetDomain(GetRDomain(), GetZDomain(), GetNDomain());
+    if (GetRSeparatrix() != this->rsep)
+        mf->SetSeparatrix(GetRSeparatrix(), GetZSeparatrix(), GetNSeparatrix());
+
+    return mf;
 }
 
 /**
-- 
2.43.0


From 9a1d5eea9c6d7b91a9257eda8fc2c350927e512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:05 +0000
Subject: [PATCH 32/86] fix: an HDF5 file that cannot be flushed is closed
 nevertheless

---
 src/SFile/SFile_HDF5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 0f11e27..012809c 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -72,14 +72,14 @@ void SFile_HDF5::Close(void) {
     bool ok = true;
     try {
         f->flush(H5F_SCOPE_GLOBAL);
-    } catch (FileIException &error) { ok = false; }
+    } catch (Exception &error) { ok = false; }
 
     // HDF5 releases the file even if closing it fails. Closing it once
     // more, as the destructor of H5File does, is then an invalid operation.
     try {
         f->close();
         delete f;
-    } catch (FileIException &error) { ok = false; }
+    } catch (Exception &error) { ok = false; }
 
     if (!ok)
         throw SFileException("%s: Unable to write HDF5 file to disk.", filename.c_str());
-- 
2.43.0


From a81cb220ae61a3d002c02f47390ff23e56280a03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 33/86] fix: clones of a logarithmic distribution function are
 logarithmic

---
 .../NumericMomentumSpaceDistributionFunction.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From dcc355e11bd4932b43955ef32d00682c7b9016d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 34/86] fix: the innermost radius of a numeric distribution
 function is kept

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..d28f0a1 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -138,8 +138,8 @@ void NumericDistributionFunction::Initialize(
     if (nr > 2)
         ascnd = (r[1] >= r[0]);
 
-    for (unsigned int i = 1; i < nr; i++) {
-        if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
+    for (unsigned int i = 0; i < nr; i++) {
+        if (i > 0 && ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i])))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
 
         // Copy radius to radial grid
-- 
2.43.0


From 2717e6105849b4d5e147d5c0df83714abf37d34a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 35/86] fix: clones of a numeric distribution function keep its
 settings

---
 .../NumericDistributionFunction.cpp                | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index d28f0a1..18ec91b 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -308,11 +308,15 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
 NumericDistributionFunction *NumericDistributionFunction::MinClone() {
     NumericDistributionFunction *df = new NumericDistributionFunction();
 
-    for (unsigned int i = 0; i < this->r.size(); i++) {
-        df->InsertMomentumSpaceDistribution(
-            this->r[i], this->msdf[i]->MinClone()
-        );
-    }
+    df->r = this->r;
+    df->rmin = this->rmin;
+    df->rmax = this->rmax;
+    for (unsigned int i = 0; i < this->r.size(); i++)
+        df->msdf.push_back(this->msdf[i]->MinClone());
+
+    df->allowExtrapolation = this->allowExtrapolation;
+    df->logarithmic = this->logarithmic;
+    df->interptype = this->interptype;
 
     return df;
 }
-- 
2.43.0


From f06bb427c4e303f097e2525b47f9d697743679a2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 36/86] fix: momentum distributions inserted at a smaller
 radius go with that radius

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 18ec91b..8798fa2 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -86,7 +86,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0] ? -1 : 0);
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -232,10 +232,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From 7c1e712cc0fb7f419a2ff2af4d634c0cee73c32f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 37/86] fix: CODE distributions with more Legendre modes than
 momenta, or one mode, stay within their arrays

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..c323a1b 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg >= 2)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From 3037b4c1de1ba9098c8cfa6c8b92f228a6de447a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 38/86] fix: evaluating a CODE distribution after converting it
 does not use stale polynomials

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index c323a1b..e08197c 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -395,6 +395,9 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
         }
     }
 
+    // The polynomials do not belong to the pitch evaluated last any more
+    this->xileg = nan("");
+
     if (logarithmic)
         msdf->InitializeLog(np, nnxi, p, txi, ff, interptype);
     else
-- 
2.43.0


From 28f298d7d1db0a42f0869da4fa8f4ba1086e60a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 39/86] fix: GO+CODE distributions are evaluated within their
 radial grid

---
 src/DistributionFunction/GOCODEDistributionFunction.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..af7ceb2 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,10 +43,13 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
+    if (ir <= 0) {
         r0 = 0;
         r1 = this->rho[0];
         slibreal_t r2 = this->rho[1], f2;
@@ -54,7 +57,7 @@ slibreal_t GOCODEDistributionFunction::Eval(
         f1 = this->code[0]->Eval(p, xi);
         f2 = this->code[1]->Eval(p, xi);
         f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
+    } else if ((unsigned int)ir >= this->nr-1) {
         r0 = this->rho[this->nr-1];
         r1 = r0 + (2*r0 - this->rho[nr-2]);
 
-- 
2.43.0


From 303269ebe80e0f2e3e0acf512eaf700182499427 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 40/86] fix: SOFT distribution arrays are freed as they were
 allocated

---
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..f7b2b5c 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -227,7 +227,7 @@ void SOFTDistributionFunction::__LoadRadius(
     // Distribution function
     double **ttf = sf->GetDoubles(groupname+"f", fsize);
 	double *tf = ttf[0];
-    delete ttf;
+    delete [] ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
         throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%llu x %llu).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
-- 
2.43.0


From 3985c6cbec98850cbb1d2a13cd50f88b5c00fb61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 41/86] fix: distributions can be loaded without a magnetic
 field, as the default argument promises

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..9710969 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -182,7 +182,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (sfilesize_t i = 0; i < nr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index f7b2b5c..0c75b30 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -187,7 +187,8 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (unsigned int i = 0; i < nnr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
-- 
2.43.0


From d9f71fefc54746cf3aecdacebcf6e641c9826b7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 42/86] fix: time steps a DREAM distribution does not have are
 rejected

---
 .../DREAMDistributionFunction.cpp             | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 9710969..719044b 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -128,25 +128,32 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (tf == nullptr || ndims != 4)
+        throw SOFTLibException(
+            "DREAMDistributionFunction: Invalid number of dimensions of distribution function: %llu.", ndims
+        );
+    if (fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
             ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
         );
 
-    sfilesize_t TIMEINDEX;
+    // Bounds check (a negative index is relative to the end)
+    if (nt > fsize[0])
+        nt = fsize[0];
+
+    int64_t it = timestep;
     if (timestep < 0)
-        TIMEINDEX = (nt+timestep)*nr*np*nxi;
-    else
-        TIMEINDEX = timestep * nr*np*nxi;
+        it += nt;
 
-    // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (it < 0 || it >= (int64_t)nt)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
         );
 
+    sfilesize_t TIMEINDEX = it*nr*np*nxi;
+
     dat->nr  = nr;
     dat->np  = np;
     dat->nxi = nxi;
-- 
2.43.0


From e7144eb81dfd5241b642d4c4561e529150f66b6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 43/86] fix: destroying a DREAM distribution frees the array
 that was allocated

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 719044b..c14f826 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -160,7 +160,12 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        // (only the selected time step is kept)
+        dat->f  = new slibreal_t[nr*nxi*np];
+        for (sfilesize_t i = 0; i < nr*nxi*np; i++)
+            dat->f[i]  = (tf+TIMEINDEX)[i];
+        delete [] tf;
+
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
-- 
2.43.0


From 67476180ce67b811dcfb4f6f93cbeb0a3458acfd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 44/86] fix: distribution files are closed also when loading
 fails

---
 src/DistributionFunction/CODEDistributionFunction.cpp    | 6 +++---
 src/DistributionFunction/DREAMDistributionFunction.cpp   | 3 ++-
 src/DistributionFunction/GOCODEDistributionFunction.cpp  | 5 +++--
 src/DistributionFunction/LUKEDistributionFunction.cpp    | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp    | 5 +++--
 .../deprSOFTDistributionFunction.cpp                     | 9 +++++----
 6 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index e08197c..eab7f0e 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -5,6 +5,7 @@
 
 #include <cmath>
 #include <cstdio>
+#include <memory>
 #include <string>
 
 #include <softlib/config.h>
@@ -65,10 +66,9 @@ CODEDistributionFunction::~CODEDistributionFunction() {
  * path:       Path in input file to load distribution from.
  */
 void CODEDistributionFunction::Load(const string& fname, int time, int interptype, const string& path) {
-    SFile *sf;
-    sf = SFile::Create(fname, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(fname, SFILE_MODE_READ));
 
-    this->Load(sf, time, interptype, path);
+    this->Load(sf.get(), time, interptype, path);
     
     sf->Close();
 }
diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index c14f826..b515b05 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -7,6 +7,7 @@
  * DREAM output files.
  */
 
+#include <memory>
 #include <string>
 #include "softlib/DistributionFunction/DREAMDistributionFunction.h"
 #include "softlib/SFile.h"
@@ -87,7 +88,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     const string &filename, MagneticField2D *mf, const string &distname,
     int timestep
 ) {
-    SFile *sf = SFile::Create(filename, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(filename, SFILE_MODE_READ));
 
     // First, determine the name of the distribution function.
     string dname, momgridname;
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index af7ceb2..fd46d6e 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -2,6 +2,7 @@
  * Interface for loading GO+CODE distribution functions.
  */
 
+#include <memory>
 #include <string>
 #include "softlib/DistributionFunction/CODEDistributionFunction.h"
 #include "softlib/DistributionFunction/GOCODEDistributionFunction.h"
@@ -134,7 +135,7 @@ void GOCODEDistributionFunction::Initialize(unsigned int nr, slibreal_t *rho, CO
  * interptype:  Type of interpolation to do (NumericDistributionFunction::INTERPOLATION_???).
  */
 void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf, int time, int interptype) {
-    SFile *sf = SFile::Create(fname, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(fname, SFILE_MODE_READ));
 
     sfilesize_t fsize[2];
     unsigned int nnr;
@@ -200,7 +201,7 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
     for (unsigned int i = 0; i < nnr; i++) {
         string groupname = tname+"r"+to_string(i)+"/";
 
-        this->code[i] = new CODEDistributionFunction(sf, 0, interptype, groupname);
+        this->code[i] = new CODEDistributionFunction(sf.get(), 0, interptype, groupname);
     }
 }
 
diff --git a/src/DistributionFunction/LUKEDistributionFunction.cpp b/src/DistributionFunction/LUKEDistributionFunction.cpp
index cbc0755..0d9fb5c 100644
--- a/src/DistributionFunction/LUKEDistributionFunction.cpp
+++ b/src/DistributionFunction/LUKEDistributionFunction.cpp
@@ -5,6 +5,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <string>
 
 #include <softlib/constants.h>
@@ -121,7 +122,7 @@ struct LUKEDistributionFunction::lukedf_data *LUKEDistributionFunction::__Load(c
     unsigned int i, nnr, nnp, nnxi, dn;
     struct lukedf_data *dat;
 
-    SFile *sf = SFile::Create(fname, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(fname, SFILE_MODE_READ));
 
     // r grid
     double **tr = sf->GetDoubles("xrhoG", fsize);
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 0c75b30..ba62db8 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -5,6 +5,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <string>
 
 #include <softlib/constants.h>
@@ -144,7 +145,7 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
     unsigned int nnr;
     struct softdf_data *dat;
 
-    SFile *sf = SFile::Create(fname, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(fname, SFILE_MODE_READ));
 
     // Check if type is specified
     if (sf->HasVariable("type")) {
@@ -166,7 +167,7 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
     // Load individual momentum space distribution functions
     for (unsigned int i = 0; i < nnr; i++) {
         string groupname = "r"+to_string(i)+"/";
-        __LoadRadius(sf, groupname, dat->fr+i);
+        __LoadRadius(sf.get(), groupname, dat->fr+i);
     }
 
     sf->Close();
diff --git a/src/DistributionFunction/deprSOFTDistributionFunction.cpp b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
index f176d36..b647457 100644
--- a/src/DistributionFunction/deprSOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
@@ -9,6 +9,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <string>
 
 #include <softlib/constants.h>
@@ -128,7 +129,7 @@ struct deprsoftdf_data *deprSOFTDistributionFunction::__Load(const string &fname
     unsigned int i, nnr, nnp, nnxi, dn;
     struct deprsoftdf_data *dat;
 
-    SFile *sf = SFile::Create(fname, SFILE_MODE_READ);
+    unique_ptr<SFile> sf(SFile::Create(fname, SFILE_MODE_READ));
 
     // r grid
     double **tr = sf->GetDoubles("r", fsize);
@@ -158,11 +159,11 @@ struct deprsoftdf_data *deprSOFTDistributionFunction::__Load(const string &fname
         throw SOFTLibException("Invalid size of SOFT distribution function 'f' vector: %llu x %llu.", fsize[0], fsize[1]);
 
     // f(p,xi0)
-    if (!Verify("fp0", ttf, nnp, 1, sf))
+    if (!Verify("fp0", ttf, nnp, 1, sf.get()))
         throw SOFTLibException("Verification of distribution function failed in 'p' dimension.");
-    if (!Verify("fxi0", ttf, nnxi, nnp, sf))
+    if (!Verify("fxi0", ttf, nnxi, nnp, sf.get()))
         throw SOFTLibException("Verification of distribution function failed in 'xi' dimension.");
-    if (!Verify("fr0", ttf, nnr, nnp*nnxi, sf))
+    if (!Verify("fr0", ttf, nnr, nnp*nnxi, sf.get()))
         throw SOFTLibException("Verification of distribution function failed in 'r' dimension.");
 
 	delete [] ttf;
-- 
2.43.0


From 0cf78c167ae69c431ccd82be02db21d9ea55f08f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 45/86] fix: verification of a distribution is not skipped when
 reading fails

---
 src/DistributionFunction/deprSOFTDistributionFunction.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/deprSOFTDistributionFunction.cpp b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
index b647457..019a278 100644
--- a/src/DistributionFunction/deprSOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
@@ -259,11 +259,10 @@ bool deprSOFTDistributionFunction::Verify(const string& var, double **v, sfilesi
     double **f0 = nullptr, err;
     sfilesize_t nf0, fsize[2], i;
 
-    try {
-        f0 = sf->GetDoubles(var, fsize);
-    } catch (SOFTLibException& e) {
+    if (!sf->HasVariable(var))
         return true;
-    }
+
+    f0 = sf->GetDoubles(var, fsize);
 
     if (fsize[0] == 1 && fsize[1] <= n)
         nf0 = fsize[1];
-- 
2.43.0


From 592b8b974c8061d3cb268b51f60f40c59b4afc65 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 46/86] fix: a GO+CODE distribution that failed to load can be
 destroyed

---
 .../DistributionFunction/GOCODEDistributionFunction.h       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
index 6535726..1c74cb8 100644
--- a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
+++ b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
@@ -8,9 +8,9 @@
 
 class GOCODEDistributionFunction : public DistributionFunction {
     private:
-        unsigned int nr;
-        slibreal_t *rho;
-        CODEDistributionFunction **code;
+        unsigned int nr=0;
+        slibreal_t *rho=nullptr;
+        CODEDistributionFunction **code=nullptr;
 
         slibreal_t rhomin, rhomax;
 
-- 
2.43.0


From 5001b8dcd95a03a3ee74209f62bca749e2a95af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:55 +0000
Subject: [PATCH 47/86] fix: a numeric distribution function whose innermost
 radius is zero evaluates there

---
 .../NumericDistributionFunction.cpp                    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 8798fa2..7c2cb77 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -47,13 +47,11 @@ slibreal_t NumericDistributionFunction::Eval(
         f0 = this->msdf[0]->Eval(p, xi);
         f1 = 0;
     } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
+        r0 = this->r[0];
+        r1 = this->r[1];
 
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
+        f0 = this->msdf[0]->Eval(p, xi);
+        f1 = this->msdf[1]->Eval(p, xi);
     } else if ((size_t)ir >= nr-1) {
         r0 = this->r[nr-1];
         r1 = r0 + (2*r0 - this->r[nr-2]);
-- 
2.43.0


From b5731d600cd68a1a7b8d867a5e4b49d4ea3424a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 48/86] fix: a numeric distribution function with one radius
 evaluates also at radius zero

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 7c2cb77..b23d8fb 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -41,11 +41,8 @@ slibreal_t NumericDistributionFunction::Eval(
     slibreal_t r0, r1;
 
     if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
+        // No radial dependence
+        return this->msdf[0]->Eval(p, xi);
     } else if (ir <= 0) {
         r0 = this->r[0];
         r1 = this->r[1];
-- 
2.43.0


From 53762819cde6237ac261bb36b1957e9ddbbdafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 49/86] fix: HDF5 files are released also when HDF5 keeps
 objects open after a failure

---
 include/softlib/SFile_HDF5.h |  1 +
 src/SFile/SFile_HDF5.cpp     | 21 ++++++++++++++++++---
 src/SFile/SFile_MAT.HDF5.cpp |  6 +++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/softlib/SFile_HDF5.h b/include/softlib/SFile_HDF5.h
index 2bd0ec6..7320309 100644
--- a/include/softlib/SFile_HDF5.h
+++ b/include/softlib/SFile_HDF5.h
@@ -19,6 +19,7 @@ class SFile_HDF5 : public SFile {
         T **GetArray2D(const std::string&, sfilesize_t*, H5::PredType);
 	protected:
 		H5::H5File *file;
+		static H5::H5File *OpenFile(const std::string&, unsigned int);
 	public:
 		SFile_HDF5();
 		~SFile_HDF5();
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 012809c..f44964f 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -24,6 +24,21 @@ SFile_HDF5::~SFile_HDF5() {
 	if (this->file != nullptr)
 		delete this->file;
 }
+/**
+ * Open a file such that closing it releases everything that
+ * HDF5 still has open in it. (When an operation fails, HDF5
+ * may keep objects open, and with them the file).
+ *
+ * filename: Name of file to open
+ * flags:    HDF5 access flags
+ */
+H5File *SFile_HDF5::OpenFile(const string& filename, unsigned int flags) {
+    FileAccPropList fapl;
+    fapl.setFcloseDegree(H5F_CLOSE_STRONG);
+
+    return new H5File(filename, flags, FileCreatPropList::DEFAULT, fapl);
+}
+
 /**
  * Open HDF5 file.
  *
@@ -40,13 +55,13 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
 	try {
 		switch (openmode) {
 			case SFILE_MODE_READ:
-				this->file = new H5File(filename, H5F_ACC_RDONLY);
+				this->file = OpenFile(filename, H5F_ACC_RDONLY);
 				break;
 			case SFILE_MODE_UPDATE:
-				this->file = new H5File(filename, H5F_ACC_RDWR);
+				this->file = OpenFile(filename, H5F_ACC_RDWR);
 				break;
 			case SFILE_MODE_WRITE:
-				this->file = new H5File(filename, H5F_ACC_TRUNC);
+				this->file = OpenFile(filename, H5F_ACC_TRUNC);
 				break;
 			default:
 				throw SFileException("Unrecognized option for opening HDF5 file.");
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 74a9bec..b32121f 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -36,10 +36,10 @@ void SFile_MAT::Open(const string& filename, enum sfile_mode openmode) {
 	try {
 		switch (openmode) {
 			case SFILE_MODE_READ:
-				this->file = new H5File(filename, H5F_ACC_RDONLY);
+				this->file = OpenFile(filename, H5F_ACC_RDONLY);
 				break;
 			case SFILE_MODE_UPDATE:
-				this->file = new H5File(filename, H5F_ACC_RDWR);
+				this->file = OpenFile(filename, H5F_ACC_RDWR);
 				break;
 			case SFILE_MODE_WRITE:
 				//this->file = new H5File(filename, H5F_ACC_TRUNC);
@@ -135,7 +135,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
         throw SFileException("Unable to write header of MAT file '%s'.", filename.c_str());
 
     // Re-open using HDF5 API
-    return new H5File(filename, H5F_ACC_RDWR);
+    return OpenFile(filename, H5F_ACC_RDWR);
 }
 
 /************************
-- 
2.43.0


From db7710695f884d0fb3424bf19b16f4c8f3356d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 50/86] fix: continuing a timer that is running does not
 discard the time elapsed

---
 src/General/Timer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 960a171..d9a501a 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -84,11 +84,10 @@ struct Timer::time Timer::GetTimeStruct() const {
  * Continue running the timer.
  */
 void Timer::Continue() {
-	if (this->stopped)
-		offset += toc-tic;
-	else
-		offset = high_resolution_clock::duration::zero();
-	
+	if (!this->stopped)     // already running
+		return;
+
+	offset += toc-tic;
 	tic = high_resolution_clock::now();
 	this->stopped = false;
 }
-- 
2.43.0


From 5e11060de0cbc235a613cae547ee6526de28afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 51/86] fix: stopping a timer that is stopped does not count
 the time in between

---
 src/General/Timer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index d9a501a..d38b823 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -105,6 +105,9 @@ void Timer::Reset() {
  * Stop the timer.
  */
 void Timer::Stop() {
+	if (this->stopped)
+		return;
+
 	toc = high_resolution_clock::now();
 	this->stopped = true;
 }
-- 
2.43.0


From eb11a1f4b6fde46e31f247e3dc8cc1265220963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 52/86] fix: the parts of times of a day and more add up

---
 src/General/Timer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index d38b823..61492b6 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -69,13 +69,15 @@ struct Timer::time Timer::GetTimeStruct() const {
     //unsigned long long seconds  = useconds / 1e6;
 
     t.tp = duration_cast<microseconds>(toc-tic+offset);
+    t.total_sec = duration_cast<seconds>(toc-tic+offset);
 
+    // ('days' counts days, although its type is 'hours')
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
-    t.hours        = duration_cast<hours>((toc-t.days)-tic+offset);
-    t.minutes      = duration_cast<minutes>((toc-t.days-t.hours)-tic+offset);
-    t.seconds      = duration_cast<seconds>((toc-t.days-t.hours-t.minutes)-tic+offset);
-    t.milliseconds = duration_cast<milliseconds>((toc-t.days-t.hours-t.minutes-t.seconds)-tic+offset);
-    t.microseconds = duration_cast<microseconds>((toc-t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    t.hours        = duration_cast<hours>((toc-24*t.days)-tic+offset);
+    t.minutes      = duration_cast<minutes>((toc-24*t.days-t.hours)-tic+offset);
+    t.seconds      = duration_cast<seconds>((toc-24*t.days-t.hours-t.minutes)-tic+offset);
+    t.milliseconds = duration_cast<milliseconds>((toc-24*t.days-t.hours-t.minutes-t.seconds)-tic+offset);
+    t.microseconds = duration_cast<microseconds>((toc-24*t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
 
     return t;
 }
-- 
2.43.0


From 1638012f876fb89ce732f997bb8fe84c1950eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 53/86] fix: progress lines are numbered and printed by one
 thread at a time

---
 src/General/ProgressTracker.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..d3325ef 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,28 +76,22 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
-    bool returnImmediately = false;
-
 #ifdef _OPENMP
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i < this->next)
-            returnImmediately = true;
-        else
+        if (i >= this->next) {
+            const long long int index = this->nextindex;
             this->UpdateNext();
+
+            if (this->type == PROGRESS_LINES)
+                PrintProgressLines(index);
+
+            this->last->Reset();
+        }
 #ifdef _OPENMP
     }
 #endif
-
-    if (returnImmediately)
-        return;
-
-    if (this->type == PROGRESS_LINES)
-        PrintProgressLines(index);
-
-    this->last->Reset();
 }
 
 /**
-- 
2.43.0


From 6b76a400661e7a3e1d5c1600ddf0e8878c8b4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 54/86] fix: no more progress lines are printed than requested

---
 src/General/ProgressTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index d3325ef..8691328 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -80,7 +80,7 @@ void ProgressTracker::PrintProgress(const long long int i) {
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i >= this->next) {
+        if (i >= this->next && this->nextindex <= this->nprint) {
             const long long int index = this->nextindex;
             this->UpdateNext();
 
-- 
2.43.0


From 46787f91d26e942f73ce4b1f9fd9fa6bfc4a5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 55/86] fix: running out of memory while integrating is
 reported, and the steps taken are kept

---
 include/softlib/Integrator.h              |  3 +++
 include/softlib/Integrator/Integrator.tcc | 24 ++++++++++++++++++++---
 include/softlib/Integrator/RKDP45.tcc     | 10 +++++-----
 include/softlib/Integrator/RungeKutta.tcc | 11 +++++++++--
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/softlib/Integrator.h b/include/softlib/Integrator.h
index 7ed91b3..4d68827 100644
--- a/include/softlib/Integrator.h
+++ b/include/softlib/Integrator.h
@@ -1,6 +1,7 @@
 #ifndef _INTEGRATOR_H
 #define _INTEGRATOR_H
 
+#include <cstddef>
 #include <vector>
 #include <softlib/config.h>
 #include <softlib/IntegratorEquation.h>
@@ -27,6 +28,8 @@ class Integrator {
 
 		IntegratorEquation<N> *eqn;
 
+		static slibreal_t *Reallocate(slibreal_t*, const size_t);
+
 	public:
 		Integrator();
 		Integrator(const Vector<N>&);
diff --git a/include/softlib/Integrator/Integrator.tcc b/include/softlib/Integrator/Integrator.tcc
index 339cf28..999a652 100644
--- a/include/softlib/Integrator/Integrator.tcc
+++ b/include/softlib/Integrator/Integrator.tcc
@@ -7,6 +7,7 @@
  */
 
 #include <cstdlib>
+#include <new>
 #include <vector>
 #include <softlib/Integrator.h>
 #include <softlib/Vector.h>
@@ -121,6 +122,23 @@ void Integrator<N>::OutputDense(const unsigned int nt, const slibreal_t tmin, co
     OutputDense(nt, outt, out);
 }
 
+/**
+ * Change the size of an array. If there is not enough
+ * memory an exception is thrown, and the array remains
+ * as it was.
+ *
+ * p: Array to resize.
+ * n: Number of elements that the array should have.
+ */
+template<unsigned int N>
+slibreal_t *Integrator<N>::Reallocate(slibreal_t *p, const size_t n) {
+	p = (slibreal_t*)realloc(p, sizeof(slibreal_t)*n);
+	if (p == nullptr)
+		throw std::bad_alloc();
+
+	return p;
+}
+
 /**
  * Sets the equation to solve.
  *
@@ -147,9 +165,9 @@ unsigned int Integrator<N>::StepsTaken() { return ntimesteps; }
 template<unsigned int N>
 void Integrator<N>::StoreSolution(const slibreal_t t, const Vector<N>& y, const Vector<N>& yp) {
 	if (ntsallocated <= ntimesteps) {
-		time = (slibreal_t*)realloc(time, sizeof(slibreal_t)*(ntsallocated+INTEGRATOR_ALLOC_SIZE));
-		solution = (slibreal_t*)realloc(solution, sizeof(slibreal_t)*N*(ntsallocated+INTEGRATOR_ALLOC_SIZE));
-		derivative = (slibreal_t*)realloc(derivative, sizeof(slibreal_t)*N*(ntsallocated+INTEGRATOR_ALLOC_SIZE));
+		time = Reallocate(time, ntsallocated+INTEGRATOR_ALLOC_SIZE);
+		solution = Reallocate(solution, N*(ntsallocated+INTEGRATOR_ALLOC_SIZE));
+		derivative = Reallocate(derivative, N*(ntsallocated+INTEGRATOR_ALLOC_SIZE));
 
 		ntsallocated += INTEGRATOR_ALLOC_SIZE;
 	}
diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..21c921d 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -61,11 +61,11 @@ void RKDP45<N>::PrepareDense(
 	unsigned int i, t = (this->ntimesteps-2)*N;
 
 	if (nrcontallocated < this->ntsallocated) {
-		rcont1 = (slibreal_t*)realloc(rcont1, sizeof(slibreal_t) * N * this->ntsallocated);
-		rcont2 = (slibreal_t*)realloc(rcont2, sizeof(slibreal_t) * N * this->ntsallocated);
-		rcont3 = (slibreal_t*)realloc(rcont3, sizeof(slibreal_t) * N * this->ntsallocated);
-		rcont4 = (slibreal_t*)realloc(rcont4, sizeof(slibreal_t) * N * this->ntsallocated);
-		rcont5 = (slibreal_t*)realloc(rcont5, sizeof(slibreal_t) * N * this->ntsallocated);
+		rcont1 = this->Reallocate(rcont1, N * this->ntsallocated);
+		rcont2 = this->Reallocate(rcont2, N * this->ntsallocated);
+		rcont3 = this->Reallocate(rcont3, N * this->ntsallocated);
+		rcont4 = this->Reallocate(rcont4, N * this->ntsallocated);
+		rcont5 = this->Reallocate(rcont5, N * this->ntsallocated);
 
 		nrcontallocated = this->ntsallocated;
 	}
diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index dce4ea0..d18bca4 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -128,8 +128,15 @@ void RungeKutta<N>::StoreSolution(const slibreal_t t, const Vector<N>& y, const
 	/* Dense output coefficients should only be stored
 	 * when requested, and only after the first timestep
 	 * has been taken. */
-	if (HasDenseOutput() && this->ntimesteps > 1)
-		PrepareDense(this->timestep, yold, y, dydxold, yp);
+	if (HasDenseOutput() && this->ntimesteps > 1) {
+		try {
+			PrepareDense(this->timestep, yold, y, dydxold, yp);
+		} catch (...) {
+			/* A step without coefficients is not a step */
+			this->ntimesteps--;
+			throw;
+		}
+	}
 }
 
 /**
-- 
2.43.0


From 912ac49ea2cfe4b6714f0a5da0bcf9f99431f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 56/86] fix: a momentum distribution is inserted completely or
 not at all when memory runs out

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index b23d8fb..b504cd8 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -227,6 +227,12 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
+
+    // Make room in both lists first, so that they
+    // stay in step also if memory runs out
+    this->r.reserve(this->r.size()+1);
+    this->msdf.reserve(this->msdf.size()+1);
+
     this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
-- 
2.43.0


From c8b841df00cd5e4622eb8dae10d5e6c295f18288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 57/86] fix: logarithmizing into a new array inserts that array

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index b504cd8..5373a90 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -291,7 +291,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 8f8e55949e2e19fcd1a34373d78cf5a933814946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 58/86] fix: copied and merged configuration blocks belong to
 the block they are in

---
 src/Configuration/ConfigBlock.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..b31b3ed 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -83,6 +85,7 @@ ConfigBlock *ConfigBlock::AddSubBlock(ConfigBlock *cb) {
         return GetConfigBlock(cb->GetType(), cb->GetName());
     } else {
         this->subblocks.push_back(cb);
+        cb->SetParent(this);
         return cb;
     }
 }
-- 
2.43.0


From bcc1c05e8dba5a9a599057072d00c4806e42cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 59/86] fix: merging copies new settings instead of sharing
 them with the other block

---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index b31b3ed..05cfee8 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -322,7 +322,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
-- 
2.43.0


From 1705983fe4821a4328992994341f04c417ac7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:43 +0000
Subject: [PATCH 60/86] fix: dense output before the first step, and at times
 in any order, does not read outside the steps

---
 include/softlib/Integrator/RKDP45.tcc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 21c921d..d4773bc 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,10 +95,15 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (this->ntimesteps < 2)
+		throw SOFTLibException("Dense output requires at least one step to have been taken.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
 		/* Find next time */
+		while (it > 0 && this->time[it] > T)
+			it--;
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
 
@@ -107,6 +112,11 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
                 "The requested tmax requires extrapolation. T = %e, tmax = %e, n = %u, i = %u",
                 T, this->time[it+1], this->ntimesteps, it+1
             );
+		if (this->time[it] > T)
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[it]
+            );
 
 		stepsize = this->time[it+1]-this->time[it];
 		
-- 
2.43.0


From c5bc773b275b14909480498d98824f0c72c5e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 61/86] fix: a step that failed with step-size underflow can be
 taken again

---
 include/softlib/Integrator/RungeKutta.tcc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index d18bca4..f1ecbc1 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -88,7 +88,8 @@ slibreal_t RungeKutta<N>::Step() {
 	y = this->LastSolution();
 	dydx = this->LastDerivative();
 
-	h = optimal_step;
+	const slibreal_t h0 = optimal_step;
+	h = h0;
 	T = this->LastTime();
 
 	while (true) {
@@ -97,8 +98,11 @@ slibreal_t RungeKutta<N>::Step() {
 		if (this->UpdateTimestep(err)) break;
 
 		h = optimal_step;
-		if (fabs(h) <= fabs(T)*REAL_EPSILON)
+		if (fabs(h) <= fabs(T)*REAL_EPSILON) {
+			/* Allow the step to be tried again */
+			optimal_step = h0;
 			throw SOFTLibException("Step-size underflow in Runge-Kutta integrator.");
+		}
 	}
 
 	yold = y;
-- 
2.43.0


From d62ae3ead4c5df667b3995f0ecba8445e467298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:20 +0000
Subject: [PATCH 62/86] fix: reading an array without rows wrote past its array
 of row pointers

---
 src/SFile/SFile.cpp      | 2 +-
 src/SFile/SFile_HDF5.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 4f8869d..8e3edb6 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -175,7 +175,7 @@ template<typename Tout, typename Tin>
 Tout **SFile::__Get2DAs(const string& name, sfilesize_t *dims, Tin** (SFile::*f)(const string&, sfilesize_t*), SFile *sf) {
     Tin **a = (sf->*f)(name, dims);
 
-    Tout **b = new Tout*[dims[0]];
+    Tout **b = new Tout*[dims[0] > 0 ? dims[0] : 1];
     b[0] = new Tout[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         b[i] = b[i-1] + dims[1];
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index f44964f..9d4a07e 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -273,7 +273,8 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		pointers[0] = data;
 	} else {
 		data = new T[dims[0]*dims[1]];
-		pointers = new T*[dims[0]];
+		pointers = new T*[dims[0] > 0 ? dims[0] : 1];
+		pointers[0] = data;
 		for (i = 0; i < dims[0]; i++) {
 			pointers[i] = data + (i*dims[1]);
 		}
-- 
2.43.0


From 6d5c73900c0b54afbd89fb4d8735bfb7dc03d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:28 +0000
Subject: [PATCH 63/86] fix: a configuration that ends within quoted text or an
 include is reported

The text cut off was taken as an ordinary token, so that for instance a
quoted ';' at the end completed the statement it was the value of, and the
shortened configuration was presented as a successful load.
---
 src/Configuration/Script/Lexer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ff6cfce..1ef983b 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -251,6 +251,12 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+	// (text that is still open has been cut off)
+	if (this->instring)
+		throw ConfigurationException(this->linecounter, this->charpos, this->file, "Quoted text was not closed.");
+	else if (this->ininclude)
+		throw ConfigurationException(this->linecounter, this->charpos, this->file, "Name of included file was not closed.");
+
 	// Push remaining buffer
     if (!buffer.empty())
         pushbuffer(buffer, tkns);
-- 
2.43.0


From 47119fbb4745b26b252254e69414a686a47a01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:37 +0000
Subject: [PATCH 64/86] fix: numeric distributions with a decreasing radial
 grid are evaluated at the right radius

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 5373a90..03af0d4 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -96,9 +96,9 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
 
     if (il > nnr-1)
         return nnr-1;
-    else if (r < this->r[0])
+    else if (ascnd ? r < this->r[0] : r > this->r[0])
         return -1;
-    else if (r > this->r[nnr-1])
+    else if (ascnd ? r > this->r[nnr-1] : r < this->r[nnr-1])
         return nnr-1;
     else
         return il;
-- 
2.43.0


From 91f7f7cdb6f9c6e5130cbe32889605a5f8969afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 65/86] fix: asking whether a number out of range is a number
 gives an answer instead of an exception

---
 src/Configuration/Script/SettingScript.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..b4c9c35 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -247,6 +247,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 		stod(value, NULL);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
 	return true;
@@ -264,6 +266,8 @@ bool SettingScript::IsNumericVector() const {
 			stod(this->values[i], NULL);
 		} catch (invalid_argument& e) {
 			return false;
+		} catch (out_of_range& e) {
+			return false;
 		}
 	}
 
-- 
2.43.0


From 39cd2f4de65b3b5422d39d0a4d5198336b578821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 66/86] fix: a setting that is given twice is not counted as
 used

---
 src/Configuration/ConfigBlock.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 05cfee8..f67ed36 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -54,18 +54,19 @@ ConfigBlock::~ConfigBlock() {
  * values: List of values.
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
-    if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+    for (Setting *s : this->settings) {
+        if (s->HasName(set->GetName())) {
+            // Replace setting (this is not a use of it, so it is not touched)
+            s->OverwriteValues(set);
 
-        delete set;
+            delete set;
 
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+            return s;
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From 6c66eb248d9f013859c7a8429ac4e9881450bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 67/86] fix: unsigned integer settings that are negative or too
 large are rejected instead of wrapping around

---
 src/Configuration/Script/SettingScript.cpp | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index b4c9c35..9179015 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,6 @@
 
+#include <cstdint>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -61,7 +63,12 @@ int32_t SettingScript::GetInteger32(unsigned int index) const {
     return stoi(this->values.at(index));
 }
 uint32_t SettingScript::GetUnsignedInteger32(unsigned int index) const {
-    return stoul(this->values.at(index));
+    uint64_t v = GetUnsignedInteger64(index);
+
+    if (v > UINT32_MAX)
+        throw out_of_range("stoul");
+
+    return (uint32_t)v;
 }
 
 /**
@@ -71,7 +78,13 @@ int64_t SettingScript::GetInteger64(unsigned int index) const {
     return stoll(this->values.at(index));
 }
 uint64_t SettingScript::GetUnsignedInteger64(unsigned int index) const {
-    return stoull(this->values.at(index));
+    const string& value = this->values.at(index);
+
+    // 'stoull' negates negative numbers modulo 2^64
+    if (value.find('-') != string::npos)
+        throw out_of_range("stoull");
+
+    return stoull(value);
 }
 
 /**
@@ -182,8 +195,12 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
-        stoul(value, &end);
+        if (stoull(value, &end) > UINT32_MAX)
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -218,6 +235,9 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
         stoull(value, &end);
     } catch (invalid_argument& e) {
-- 
2.43.0


From 1a28bdb5413d73ead18e302514d4895501370f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:01 +0000
Subject: [PATCH 68/86] fix: an SDT matrix without columns and with more rows
 than the file has lines is rejected at once

---
 src/SFile/SFile_SDT.load.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 8b9429c..372717a 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -71,7 +71,9 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
 
     for (sfilesize_t i = 0; i < nrows; i++) {
         string line;
-        getline(sdtfile, line);
+        // (the very last line may lack its newline)
+        if (!getline(sdtfile, line) && i+1 < nrows)
+            throw SFileException("The matrix '%s' is incomplete.", name.c_str());
         terminated = !sdtfile.eof();
         stringstream ss(line);
 
-- 
2.43.0


From dcea90cfd82e93651b7831cb1f14236eb27316a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:52:50 +0000
Subject: [PATCH 69/86] fix: an equilibrium whose field components do not fit
 its grid is rejected

---
 .../MagneticField/MagneticFieldNumeric2D.h    |  1 +
 src/MagneticField/MagneticFieldNumeric2D.cpp  | 21 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..8b23f55 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -28,6 +28,7 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		slibreal_t rmin, rmax, zmin, zmax;
 
 		slibreal_t **__EvalJacobian(slibreal_t, slibreal_t, slibreal_t);
+		void CheckGridSize(const std::string&, const std::string&, const sfilesize_t*);
 
         bool hasFluxCoordinates = false;
 
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 6760e80..e1ac9cb 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -524,18 +524,22 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	CheckGridSize(filename, "Br", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	CheckGridSize(filename, "Bphi", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	CheckGridSize(filename, "Bz", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
     if (sf->HasVariable("Psi")) {
         _Psi = sf->GetDoubles("Psi", fs);
+        CheckGridSize(filename, "Psi", fs);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
     }
@@ -715,6 +719,23 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
     SetSeparatrix(this->rsep, this->zsep, this->nsep);
 }
 
+/**
+ * Make sure that a quantity loaded from a file is
+ * given on the grid, i.e. as nz-by-nr or nr-by-nz.
+ *
+ * filename: Name of file that the quantity was loaded from.
+ * name:     Name of the quantity.
+ * dims:     Number of rows and columns of the quantity.
+ */
+void MagneticFieldNumeric2D::CheckGridSize(const string& filename, const string& name, const sfilesize_t *dims) {
+	if (!(dims[0] == this->nz && dims[1] == this->nr) &&
+		!(dims[0] == this->nr && dims[1] == this->nz))
+		throw SFileException(
+			"%s: Invalid dimensions of '%s': %llu x %llu. Expected nz-by-nr (%u x %u).",
+			filename.c_str(), name.c_str(), dims[0], dims[1], this->nz, this->nr
+		);
+}
+
 /**
  * Transpose the given matrix of size rows-by-cols.
  * The returned matrix will be of size cols-by-rows.
-- 
2.43.0


From 8cd68d571878cd3c79529df3426ed67f500606a6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:52:51 +0000
Subject: [PATCH 70/86] fix: walls and separatrices that are not points with
 two coordinates are rejected

---
 src/MagneticField/MagneticFieldLUKE.cpp      | 4 +++-
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index eb6860d..6d3c141 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -308,7 +308,9 @@ void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltyp
 		
 		double **_wall = sf->GetDoubles("wall", fs);
 
-		if (fs[0] == 2) {
+		if (fs[0] == 0 || fs[1] == 0)
+			throw SFileException("%s: The wall has no points.", wallname.c_str());
+		else if (fs[0] == 2) {
 			this->nwall = fs[1];
 
 			this->rwall = new slibreal_t[this->nwall];
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index e1ac9cb..075d0eb 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -586,6 +586,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	if (sf->HasVariable("wall")) {
 		_temp = sf->GetDoubles("wall", fs);
+		if ((fs[0] != 2 && fs[1] != 2) || fs[0] == 0 || fs[1] == 0)
+			throw SFileException(filename+": The wall must be given as points with two coordinates.");
         if (fs[0] == 2) {
             _rwall = _temp[0];
             _zwall = _temp[1];
@@ -612,6 +614,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	if (sf->HasVariable("separatrix")) {
 		_temp = sf->GetDoubles("separatrix", fs);
+		if ((fs[0] != 2 && fs[1] != 2) || fs[0] == 0 || fs[1] == 0)
+			throw SFileException(filename+": The separatrix must be given as points with two coordinates.");
         if (fs[0] == 2) {
             _rsep = _temp[0];
             _zsep = _temp[1];
-- 
2.43.0


From a8dfc4523986b582fc769e6ba57e2212cc089bc0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:52:51 +0000
Subject: [PATCH 71/86] fix: equilibria with a grid that cannot be interpolated
 are rejected instead of ending the program

---
 src/MagneticField/MagneticFieldLUKE.cpp      | 10 ++++++++++
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index 6d3c141..e0a8e42 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -167,6 +167,16 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	double *_tsig = sf->GetList("equil/theta", fs);
 	sfilesize_t ntsig = fs[0];
 
+	// (GSL ends the program if it cannot work on the grid)
+	if (npsig < 2 || ntsig < 2)
+		throw SFileException("%s: At least two points are needed in 'psi_apRp' and 'theta'.", name.c_str());
+	for (sfilesize_t i = 1; i < npsig; i++)
+		if (!(_psig[i-1] < _psig[i]))
+			throw SFileException("%s: The grid 'psi_apRp' must be strictly monotonic.", name.c_str());
+	for (sfilesize_t i = 1; i < ntsig; i++)
+		if (!(_tsig[i-1] < _tsig[i]))
+			throw SFileException("%s: The grid 'theta' must be strictly increasing.", name.c_str());
+
 	double **_Br = sf->GetDoubles("equil/ptBx", fs);
 	if (npsig != fs[1] || ntsig != fs[0])
 		throw SFileException(
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 075d0eb..14d3ac0 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -280,7 +280,18 @@ void MagneticFieldNumeric2D::InitInterpolation() {
 	/* Use SPLINTER for interpolation */
 #	error "SPLINTER support has not been implemented yet."
 #else
-	/* Use GSL for interpolation */
+	/* Use GSL for interpolation (which ends the
+	 * program if it cannot work on the grid) */
+	const unsigned int minsize = gsl_interp2d_type_min_size(gsl_interp2d_bicubic);
+	if (nr < minsize || nz < minsize)
+		throw SOFTLibException("The grid of the magnetic field is too small: %u x %u. At least %u points are needed in each direction.", nr, nz, minsize);
+	for (unsigned int i = 1; i < nr; i++)
+		if (!(R[i-1] < R[i]))
+			throw SOFTLibException("The R grid of the magnetic field must be strictly increasing.");
+	for (unsigned int i = 1; i < nz; i++)
+		if (!(Z[i-1] < Z[i]))
+			throw SOFTLibException("The Z grid of the magnetic field must be strictly increasing.");
+
 	ra = gsl_interp_accel_alloc();
 	za = gsl_interp_accel_alloc();
 
-- 
2.43.0


From 10c4d76dee8563447dfa699ce647f10233924432 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:52:51 +0000
Subject: [PATCH 72/86] fix: distributions with a momentum grid that cannot be
 interpolated are rejected instead of ending the program

---
 .../CODEDistributionFunction.cpp              | 51 +++++++++----------
 ...mericMomentumSpaceDistributionFunction.cpp | 18 +++++--
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index eab7f0e..608bb94 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -3,6 +3,7 @@
  * handler.
  */
 
+#include <climits>
 #include <cmath>
 #include <cstdio>
 #include <memory>
@@ -124,6 +125,9 @@ void CODEDistributionFunction::Load(SFile *sf, int time, int interptype, const s
     if (fsize[0] != 1 || fsize[1] != 1)
         throw SOFTLibException("Invalid size of CODE distribution 'Nxi' variable: %llu x %llu.", fsize[0], fsize[1]);
 
+    if (!(tNxi[0][0] >= 1 && tNxi[0][0] <= INT_MAX))
+        throw SOFTLibException("Invalid number of Legendre modes in CODE distribution: %e.", tNxi[0][0]);
+
     Nleg = (int)tNxi[0][0];
 
     // Convert from y to p
@@ -301,37 +305,32 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     if (this->f == nullptr || this->p == nullptr)
         throw SOFTLibException("CODE distribution function: f and p have not been initialized yet.");
 
+    const gsl_interp_type *type;
+    switch (interptype) {
+        case INTERPOLATION_LINEAR:           type = gsl_interp_linear; break;
+        case INTERPOLATION_POLYNOMIAL:       type = gsl_interp_polynomial; break;
+        case INTERPOLATION_CSPLINE:          type = gsl_interp_cspline; break;
+        case INTERPOLATION_CSPLINE_PERIODIC: type = gsl_interp_cspline_periodic; break;
+        case INTERPOLATION_AKIMA:            type = gsl_interp_akima; break;
+        case INTERPOLATION_AKIMA_PERIODIC:   type = gsl_interp_akima_periodic; break;
+        case INTERPOLATION_STEFFEN:          type = gsl_interp_steffen; break;
+        default:
+            throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
+    }
+
+    // GSL ends the program if it cannot work on the grid
+    if (this->np < gsl_interp_type_min_size(type))
+        throw SOFTLibException("CODE distribution function: The momentum grid has %u points, but the interpolation method requires at least %u.", this->np, gsl_interp_type_min_size(type));
+    for (i = 1; i < this->np; i++)
+        if (!(this->p[i-1] < this->p[i]))
+            throw SOFTLibException("CODE distribution function: The momentum grid must be strictly increasing.");
+
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
     this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
-        switch (interptype) {
-            case INTERPOLATION_LINEAR:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_linear, this->np);
-                break;
-            case INTERPOLATION_POLYNOMIAL:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_polynomial, this->np);
-                break;
-            case INTERPOLATION_CSPLINE:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline, this->np);
-                break;
-            case INTERPOLATION_CSPLINE_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline_periodic, this->np);
-                break;
-            case INTERPOLATION_AKIMA:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima, this->np);
-                break;
-            case INTERPOLATION_AKIMA_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima_periodic, this->np);
-                break;
-            case INTERPOLATION_STEFFEN:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_steffen, this->np);
-                break;
-            default:
-                throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
-        }
-
+        this->interp[i] = gsl_interp_alloc(type, this->np);
         gsl_interp_init(this->interp[i], this->p, this->f+(i*this->np), this->np);
     }
 }
diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index b761787..4a7e9ab 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -65,6 +65,14 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     slibreal_t *p, slibreal_t *xi, slibreal_t *f,
     int interp
 ) {
+    // GSL ends the program if it cannot work on the grid
+    const unsigned int minsize = gsl_interp2d_type_min_size(
+        interp == NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR ?
+            gsl_interp2d_bilinear : gsl_interp2d_bicubic
+    );
+    if (np < minsize || nxi < minsize)
+        throw SOFTLibException("The momentum grid is too small: %u x %u. At least %u points are needed in each direction.", np, nxi, minsize);
+
     this->np = np;
     this->nxi = nxi;
     this->p = p;
@@ -76,11 +84,13 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (this->pmin > this->pmax)
-        throw SOFTLibException("The p-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < np; i++)
+        if (!(p[i-1] < p[i]))
+            throw SOFTLibException("The p-grid must be strictly increasing.");
 
-    if (this->ximin > this->ximax)
-        throw SOFTLibException("The xi-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < nxi; i++)
+        if (!(xi[i-1] < xi[i]))
+            throw SOFTLibException("The xi-grid must be strictly increasing.");
 
     // Initialize interpolation
     pa = gsl_interp_accel_alloc();
-- 
2.43.0


From 0d0dec09c11c27d76cd0655b04a7ac2f65a4df79 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:52:51 +0000
Subject: [PATCH 73/86] fix: distributions without radii, or with radii that
 are no numbers, are rejected

---
 src/DistributionFunction/DREAMDistributionFunction.cpp   | 5 ++++-
 src/DistributionFunction/GOCODEDistributionFunction.cpp  | 5 ++++-
 src/DistributionFunction/NumericDistributionFunction.cpp | 5 ++++-
 src/DistributionFunction/SOFTDistributionFunction.cpp    | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index b515b05..475efcc 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -139,6 +139,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
             ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
         );
 
+    if (nr == 0)
+        throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is empty.");
+
     // Bounds check (a negative index is relative to the end)
     if (nt > fsize[0])
         nt = fsize[0];
@@ -198,7 +201,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         if (mf != nullptr)
             dat->r[i] += mf->GetMagneticAxisR();
 
-        if (i > 0 && dat->r[i] <= dat->r[i-1])
+        if (i > 0 && !(dat->r[i] > dat->r[i-1]))
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
     }
 
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index fd46d6e..c2f857b 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -155,6 +155,9 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
     else if (fsize[1] == 1) nnr = fsize[0];
     else throw SOFTLibException("Invalid size of GO+CODE distribution function 'x_CODE' vector: %llu x %llu.", fsize[0], fsize[1]);
 
+    if (nnr == 0)
+        throw SOFTLibException("The radial grid in the GO+CODE distribution function is empty.");
+
     this->nr = nnr;
     this->rho = new slibreal_t[nnr];
     for (unsigned int i = 0; i < nnr; i++)
@@ -168,7 +171,7 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
     for (unsigned int i = 0; i < nnr; i++) {
         this->rho[i] += mf->GetMagneticAxisR();
         
-        if (i > 0 && this->rho[i] <= this->rho[i-1])
+        if (i > 0 && !(this->rho[i] > this->rho[i-1]))
             throw SOFTLibException("The radial grid in the GO+CODE distribution function is not strictly increasing.");
     }
 
diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 03af0d4..303e408 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -129,12 +129,15 @@ void NumericDistributionFunction::Initialize(
 ) {
     bool ascnd = true;
 
+    if (nr == 0)
+        throw SOFTLibException("Numerical distribution function: The radial grid is empty.");
+
     // Ensure that the radial grid is monotonically increasing or decreasing
     if (nr > 2)
         ascnd = (r[1] >= r[0]);
 
     for (unsigned int i = 0; i < nr; i++) {
-        if (i > 0 && ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i])))
+        if (i > 0 && !(ascnd ? r[i-1] < r[i] : r[i-1] > r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
 
         // Copy radius to radial grid
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index ba62db8..b210f32 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -160,6 +160,9 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
     else if (fsize[1] == 1) nnr = fsize[0];
     else throw SOFTLibException("Invalid size of SOFT distribution function 'r' vector: %llu x %llu.", fsize[0], fsize[1]);
 
+    if (nnr == 0)
+        throw SOFTLibException("The radial grid in the SOFT distribution function is empty.");
+
     dat     = new struct softdf_data;
     dat->nr = nnr;
     dat->fr = new struct softmdf_data[nnr];
@@ -191,7 +194,7 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
         if (mf != nullptr)
             dat->r[i] += mf->GetMagneticAxisR();
 
-        if (i > 0 && dat->r[i] <= dat->r[i-1])
+        if (i > 0 && !(dat->r[i] > dat->r[i-1]))
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
     }
 
-- 
2.43.0


From 3518b7c4a8de07920d25f8b08f10bb46066a8755 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:53:14 +0000
Subject: [PATCH 74/86] fix: a momentum distribution that cannot be initialized
 is not inserted

---
 .../NumericDistributionFunction.cpp                   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 303e408..010b81b 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <limits>
+#include <memory>
 #include <vector>
 
 #include <softlib/config.h>
@@ -255,12 +256,16 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     const unsigned int np, const unsigned int nxi, slibreal_t r,
     slibreal_t *p, slibreal_t *xi, slibreal_t *f, int interptype
 ) {
-    int idx = this->InsertMomentumSpaceDistribution(r, new NumericMomentumSpaceDistributionFunction());
+    // (initialized first, so that nothing is inserted if that fails)
+    unique_ptr<NumericMomentumSpaceDistributionFunction> df(new NumericMomentumSpaceDistributionFunction());
 
     if (interptype == INTERPOLATION_LINEAR)
-        this->msdf[idx]->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
+        df->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
     else
-        this->msdf[idx]->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
+        df->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
+
+    int idx = this->InsertMomentumSpaceDistribution(r, df.get());
+    df.release();
 
     return idx;
 }
-- 
2.43.0


From 576d4cb59f629c2595104e2b354632f7711a592b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:53:14 +0000
Subject: [PATCH 75/86] fix: evaluating the magnetic flux outside the grid does
 not end the program

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 14d3ac0..21e78a7 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -470,6 +470,13 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -495,6 +502,12 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From e42a688e2c3249f5fc85a2dfdc3ac8af0fb4d5de Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:04:22 +0000
Subject: [PATCH 76/86] fix: a MAT character matrix is not read as a string,
 which overran the buffer

---
 src/SFile/SFile_MAT.HDF5.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index b32121f..0632a88 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -207,8 +207,10 @@ string SFile_MAT::GetString(const string& name) {
         sfilesize_t len;
         if (n == 1)
             len = dims[0];
+        else if (dims[0] > 1 && dims[1] > 1)
+            throw SFileException("The variable '%s' is a matrix of characters (%llu x %llu), not a string.", name.c_str(), dims[0], dims[1]);
         else
-            len = (dims[1]==1?dims[0]:dims[1]);
+            len = dims[0]*dims[1];
 
         unsigned short *arr = new unsigned short[len];
         dataset.read(arr, type, dspace);
-- 
2.43.0


From 35b639b6f116f49406cc52955a660c551f2beb06 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:04:22 +0000
Subject: [PATCH 77/86] fix: scalar attributes are converted to double whatever
 their type

---
 src/SFile/SFile_HDF5.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 9d4a07e..097246b 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -179,9 +179,12 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         double s;
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
-        DataType type = attr.getDataType();
+        DataSpace dspace = attr.getSpace();
+
+        if (dspace.getSimpleExtentNpoints() != 1)
+            throw SFileException("The attribute '%s' of '%s' is not a scalar.", name.c_str(), datasetname.c_str());
 
-        attr.read(type, &s);
+        attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
     } catch (FileIException &ex) {
-- 
2.43.0


From 5caad3e36ca1bdb0247030bb0d02e7a6ac7d2935 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:04:22 +0000
Subject: [PATCH 78/86] fix: numbers and lists of variable-length strings are
 not read as a string

---
 src/SFile/SFile_HDF5.cpp     | 7 +++++++
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 097246b..e021858 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -205,6 +205,10 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
         DataType type = attr.getDataType();
+        DataSpace dspace = attr.getSpace();
+
+        if (type.getClass() != H5T_STRING || (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1))
+            throw SFileException("The attribute '%s' of '%s' is not a string.", name.c_str(), datasetname.c_str());
 
         attr.read(type, s);
         return s;
@@ -230,6 +234,9 @@ string SFile_HDF5::GetString(const string& name) {
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
+    if (type.getClass() != H5T_STRING || (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1))
+        throw SFileException("%s: The variable '%s' is not a string.", filename.c_str(), name.c_str());
+
     dataset.read(s, type, dspace);
 
     return s;
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 0632a88..6ec9c5c 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -225,7 +225,7 @@ string SFile_MAT::GetString(const string& name) {
 
         s = str;
         delete [] str;
-    } else if (type.getClass() == H5T_STRING) {
+    } else if (type.getClass() == H5T_STRING && !(type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1)) {
         dataset.read(s, type, dspace);
     } else {
         throw SFileException("Unrecognized data type for string.");
-- 
2.43.0


From 5448520dab9d3f87d3555d3c2334db5ad0f442d1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:04:22 +0000
Subject: [PATCH 79/86] fix: an HDF5 variable without a value is not read as
 uninitialized memory

---
 src/SFile/SFile_HDF5.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index e021858..aca6121 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -267,6 +267,8 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
+	if (dspace.getSimpleExtentType() == H5S_NULL)
+		throw SFileException("%s: The variable '%s' is empty.", filename.c_str(), name.c_str());
 
 	ndims = dspace.getSimpleExtentNdims();
 	if (ndims > 2)
@@ -336,6 +338,8 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
+	if (dspace.getSimpleExtentType() == H5S_NULL)
+		throw SFileException("%s: The variable '%s' is empty.", sf->filename.c_str(), name.c_str());
 
 	ndims = dspace.getSimpleExtentNdims();
 	if (ndims > 2)
@@ -382,6 +386,8 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
 
 	DataSet dset = file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
+	if (dspace.getSimpleExtentType() == H5S_NULL)
+		throw SFileException("%s: The variable '%s' is empty.", filename.c_str(), name.c_str());
 
 	ndims = dspace.getSimpleExtentNdims();
 	if (ndims > nndims)
-- 
2.43.0


From 2e610ca3604a411115d92cb8d8cf6e94591238bc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:10:15 +0000
Subject: [PATCH 80/86] fix: a variable-length string that was never assigned
 does not end the program

---
 src/SFile/SFile_HDF5.cpp     | 22 ++++++++++++++++++++--
 src/SFile/SFile_MAT.HDF5.cpp |  4 ++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index aca6121..451d06a 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -210,7 +210,16 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         if (type.getClass() != H5T_STRING || (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1))
             throw SFileException("The attribute '%s' of '%s' is not a string.", name.c_str(), datasetname.c_str());
 
-        attr.read(type, s);
+        if (type.isVariableStr()) {
+            char *str = nullptr;
+            attr.read(type, &str);
+
+            if (str != nullptr)
+                s = str;
+            DataSet::vlenReclaim(&str, type, dspace);
+        } else
+            attr.read(type, s);
+
         return s;
     } catch (FileIException &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
@@ -237,7 +246,16 @@ string SFile_HDF5::GetString(const string& name) {
     if (type.getClass() != H5T_STRING || (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1))
         throw SFileException("%s: The variable '%s' is not a string.", filename.c_str(), name.c_str());
 
-    dataset.read(s, type, dspace);
+    if (type.isVariableStr()) {
+        // (the library cannot itself handle strings which were never assigned)
+        char *str = nullptr;
+        dataset.read(&str, type, dspace);
+
+        if (str != nullptr)
+            s = str;
+        DataSet::vlenReclaim(&str, type, dspace);
+    } else
+        dataset.read(s, type, dspace);
 
     return s;
 }
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 6ec9c5c..51fa1ea 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -225,8 +225,8 @@ string SFile_MAT::GetString(const string& name) {
 
         s = str;
         delete [] str;
-    } else if (type.getClass() == H5T_STRING && !(type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1)) {
-        dataset.read(s, type, dspace);
+    } else if (type.getClass() == H5T_STRING) {
+        s = SFile_HDF5::GetString(name);
     } else {
         throw SFileException("Unrecognized data type for string.");
     }
-- 
2.43.0


From 129bbdedaf566a37264fefd375ed27728f8b65c5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:16:44 +0000
Subject: [PATCH 81/86] fix: a file name with a percent sign is not used as the
 format of an error message

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 21e78a7..d4c05e4 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -584,21 +584,21 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
     /* Verify magnetic fields (check along R dimension) */
     if (nverBr > this->nr)
-        throw SFileException(filename+": Verification vector 'verBr' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBr' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBr; i++) {
         if (_Br[0][i] != _verBr[i])
             throw SFileException(filename+": Magnetic field component 'Br' did not match its verification vector.");
     }
 
     if (nverBphi > this->nr)
-        throw SFileException(filename+": Verification vector 'verBphi' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBphi' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBphi; i++) {
         if (_Bphi[0][i] != _verBphi[i])
             throw SFileException(filename+": Magnetic field component 'Bphi' did not match its verification vector.");
     }
 
     if (nverBz > this->nr)
-        throw SFileException(filename+": Verification vector 'verBz' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBz' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBz; i++) {
         if (_Bz[0][i] != _verBz[i])
             throw SFileException(filename+": Magnetic field component 'Bz' did not match its verification vector.");
-- 
2.43.0


From d5b7fe7f08b3e69c702bd0fd645f6bc6be09a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:03 +0000
Subject: [PATCH 82/86] fix: IntersectsDomain3D given arrays took y for the
 height of the first point

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index a408cfe..9ccfc2a 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -353,7 +353,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From 5c3714c4eed05bd086031193984dad2e1b348c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:03 +0000
Subject: [PATCH 83/86] fix: a numerical distribution function refused two
 radii in decreasing order

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 010b81b..7a6711e 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -134,7 +134,7 @@ void NumericDistributionFunction::Initialize(
         throw SOFTLibException("Numerical distribution function: The radial grid is empty.");
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
     for (unsigned int i = 0; i < nr; i++) {
-- 
2.43.0


From db660ab8c3afa33d854866887258385e797d3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:10 +0000
Subject: [PATCH 84/86] fix: an old SOFT distribution with an empty grid was
 read past its end

---
 src/DistributionFunction/deprSOFTDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/deprSOFTDistributionFunction.cpp b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
index 019a278..f826ca4 100644
--- a/src/DistributionFunction/deprSOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/deprSOFTDistributionFunction.cpp
@@ -149,6 +149,9 @@ struct deprsoftdf_data *deprSOFTDistributionFunction::__Load(const string &fname
     else if (fsize[1] == 1) nnxi = fsize[0];
     else throw SOFTLibException("Invalid size of SOFT distribution function 'xi' vector: %llu x %llu.", fsize[0], fsize[1]);
 
+    if (nnr == 0 || nnp == 0 || nnxi == 0)
+        throw SOFTLibException("SOFT distribution function: The grid is empty.");
+
     // Distribution function
     double **ttf = sf->GetDoubles("f", fsize);
 	double *tf = ttf[0];
-- 
2.43.0


From 88685e7949a09cd1a3524caca6e9026f82b84fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 85/86] fix: a LUKE equilibrium with an empty grid was written
 past its end

---
 src/MagneticField/MagneticFieldLUKE.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index e0a8e42..7f59665 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -113,6 +113,9 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	double *_ygpsi = sf->GetList("equil/eqdsk/y", fs);
 	sfilesize_t nygpsi = fs[0];
 
+	if (nxgpsi == 0 || nygpsi == 0)
+		throw SFileException("%s: The flux grid is empty.", name.c_str());
+
 	double **_Psi 	= sf->GetDoubles("equil/eqdsk/xypsin", fs);
 	if (nygpsi != fs[0] || nxgpsi != fs[1])
 		throw SFileException(
-- 
2.43.0


From 401c908be74e55148c9cc4093ef1e9574468d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:44 +0000
Subject: [PATCH 86/86] fix: a magnetic equilibrium on an empty grid was read
 past its end

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index d4c05e4..21993a8 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -546,6 +546,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nr = fs[0];
 	_Zgrid = sf->GetList("z", fs);
 	this->nz = fs[0];
+	if (this->nr == 0 || this->nz == 0)
+		throw SFileException(filename+": The grid of the magnetic field is empty.");
 
 	_Br = sf->GetDoubles("Br", fs);
 	CheckGridSize(filename, "Br", fs);
-- 
2.43.0

