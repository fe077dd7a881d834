From a4519c43b0ae160130ce6ef6bba69659a5ba6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 01/93] fix: writing a file no longer reorders lists in the
 caller's dictionary

The 2010 family, 2110, 2160 and 2310 writers reversed DX, NX and XNAME in
place, so a second write of the same dictionary gave a different file, and
writing a 3010/4010 dictionary without a header used the wrong shape.
---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From 800761955b6749ed28725e0d74577db13831961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 02/93] fix: reading the data section again no longer repeats
 values

A second readData() on a 2010, 3010, 4010 or 2310 file appended to the
unbounded axis (or the increments) collected by the first one.
---
 nappy/na_file/na_file_2010.py | 1 +
 nappy/na_file/na_file_2310.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..129c97f 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -91,6 +91,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..7804566 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,14 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        super()._setupArrays()
+        # Only the first item is from the header: one is added for each record read
+        self.DX = self.DX[:1]
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
-- 
2.43.0


From b3ed87044fbf9346ad206e21f384e5363e1ab465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 03/93] fix: keep fractional increments when reading FFI 2310

---
 nappy/na_file/na_file_2310.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 7804566..36ac0b7 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -80,7 +80,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 43db2ce0ca73386ff9548fc843b69de3d2936c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 04/93] fix: write each variable's values together in FFI 2310

The values of different variables were interleaved, which the reader (and
the format) take as all the values of the first variable, then the second.
---
 nappy/na_file/na_file_2310.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 36ac0b7..34a6c92 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -115,9 +115,12 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
-            # Write second independant variable and dependant variables
-            var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            # Write dependant variables: all the values of one variable before those of the next
+            if self.NX[m] == 0:
+                continue
+
+            for n in range(self.NV):
+                var_string = ""
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 0db615747bfc67ab755b9e01e4a5d4a35e572218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 05/93] fix: count the items of records that span several lines

Reading a header list hung at the end of a truncated file, surplus items on
a continuation line were silently taken as part of the record, and a record
of no items at all (no values at a mark, no character auxiliary variables)
failed with an UnboundLocalError.
---
 nappy/utils/text_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..adf3aaf 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -68,6 +68,7 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     """
 
     rtitems = []
+    extras = []
     lines = []        
 
     if type(object) == type([2,3]): 
@@ -77,13 +78,18 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            nneeded = nitems - len(rtitems)
+            (rtitems, extras) = (rtitems + items[:nneeded], items[nneeded:])
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextline = object.readline()
+            if not nextline:
+                raise Exception("End of file reached before the required number (" + str(nitems) + ") of items: \n" + str(lines))
+            items = rightStripCurlyBraces(nextline).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            nneeded = nitems - len(rtitems)
+            (rtitems, extras) = (rtitems + items[:nneeded], items[nneeded:])
 
     if len(extras) > 0:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
-- 
2.43.0


From 7b23e738eed96628bc23e28a504db5169bb01170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 06/93] fix: reject a file that ends within its header

Names and comments missing from a truncated header were read as blank lines.
---
 nappy/na_file/na_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..2bf230e 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -157,7 +157,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if not line:
+                raise Exception("End of file reached within the header of: %s" % self.filename)
+            lines.append(line.strip())
         return lines
 
     def _checkForBlankLines(self, datalines):
-- 
2.43.0


From dc38e819727e67747714ac744a4b1ca360daddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 07/93] fix: write FFI 2160 without character auxiliary
 variables

---
 nappy/na_file/na_file_2160.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..d695587 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -74,8 +74,9 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
             line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
             self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
-- 
2.43.0


From 4ee10ca749c81d7f3881532f6284211653be9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 08/93] fix: read bounded axes that define different numbers of
 values in the header

---
 nappy/na_file/na_file_2010.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 129c97f..a6d1500 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,8 +40,9 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+        # The header lists the fastest-varying axis first, NXDEF is now in reverse order
+        for nxdef in self.NXDEF[::-1]:
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, nxdef, float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From 6194954383985dc526f9254980ea2b2a9ca72f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 09/93] fix: read FFI 2160 character axis values with embedded
 spaces, and LENX as an integer

---
 nappy/na_file/na_file_2160.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index d695587..7b539a5 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -33,7 +33,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
-        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), float)
+        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self.XNAME.reverse()  # Reverse because C-type array is least-changing first
         self._readVariablesHeaderSection()
@@ -102,9 +102,10 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        x1 = nappy.utils.text_parser.readItemFromLine(datalines[0], str)
+        datalines = datalines[1:]
         self.X.append([])
-        self.X[ivar_count].append(x1[0])
+        self.X[ivar_count].append(x1)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
         
-- 
2.43.0


From 0189825b8248a1390f4629f70b804b0dea45e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 10/93] fix: accept marks whose number of values is missing in
 FFIs 2110 and 2310

The format says that the records of such a mark are omitted.
---
 nappy/na_file/na_file_2110.py | 11 ++++++++++-
 nappy/na_file/na_file_2310.py |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index d04a378..4c2bbcf 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -70,6 +70,15 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         for i in range(self.NAUXV):
            self.A.append([])
 
+    def _appendNX(self, nx):
+        """
+        Appends the number of bounded values at the current mark. If it is zero or is
+        missing then the records that would hold them are omitted.
+        """
+        if nx == self.AMISS[0]:
+            nx = 0
+        self.NX.append(int(nx))
+
     def _readData1(self, datalines, ivar_count): 
         """
         Reads first line/section of current block of data.
@@ -87,7 +96,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        self._appendNX(aux[0])
         return rtlines
 
     def _readData2(self, datalines, ivar_count):
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 34a6c92..7196716 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -79,7 +79,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        self._appendNX(aux[0])
         self.DX.append(aux[2])
         return rtlines
    
-- 
2.43.0


From c3e5e254ef057fea7fb323c49df704f3d03d6178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 11/93] fix: check and expand the axis of FFI 1020 files

DX is a list and X a flat list, so a zero increment was never rejected and
expanding the implied values always failed.
---
 nappy/na_file/na_file_1020.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..9ca5285 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -33,8 +33,8 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
-        if self.DX == 0:
-            raise "DX found to be zero (0). Not allowed for FFI 1020."
+        if self.DX[0] == 0:
+            raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
         self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
@@ -76,11 +76,11 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
+        self.X = newX
         self._normalized_X = True
 
     def writeData(self):										
-- 
2.43.0


From 8427b51f9c82b8685a8973c21e5a3785d86c28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 12/93] fix: choose the FFI of two-dimensional data with few
 values per mark

A dictionary with one value on its unbounded axis raised an IndexError, and
only the first mark was used to tell FFI 2110 from 2310.
---
 nappy/utils/common_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..2829da1 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -68,7 +68,10 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
+        elif len(d["X"][0]) < 2:
+            # 2010 - Straightforward 2-D variables (only one value on the unbounded axis)
+            return 2010
+        elif type(d["X"][0][1]) == type([1,2]) and any(len(x[1]) != 1 for x in d["X"]):
             # 2110 - one independent variable changes length and the values are specified
             return 2110
         elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
-- 
2.43.0


From ebe4171373067b67ba48d1f1c2e8e820f26e951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 13/93] fix: write blank originator, organisation, source and
 mission lines

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 2829da1..3c0bde4 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -237,8 +237,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From 70c395b2a41fde498d2c3f3edd0b11db4fe50ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 14/93] fix: honour no_header when converting NASA Ames to CSV

---
 nappy/nappy_api.py | 860 ++++++++++++++++++++++-----------------------
 1 file changed, 430 insertions(+), 430 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..a935d0d 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,430 +1,430 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+        arg_dict["na_file"] = csv_file
+        arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_file
+    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Now write them out
+    import xarray as xr
+
+    fout = xr.open_dataset(nc_file, mode=mode)
+    for var in (xr_primary_vars + xr_aux_vars):
+        fout.write(var)
+
+    # Write global attributes
+    for (att, value) in global_attributes:
+        setattr(fout, att, value)
+        
+    fout.close()
+    log.info("NetCDF file '%s' written successfully." % file_name)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
-- 
2.43.0


From ac7a71e82fccd192f082b9575736e944ceb5d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 15/93] fix: honour the output name, and use commas, in
 convertNCToCSV

---
 nappy/nappy_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index a935d0d..b1e81dd 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,9 +302,10 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
-  
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+
     return convertNCToNA(*[nc_file], **arg_dict)
     
 
-- 
2.43.0


From d17f7d4eada75e76caaf86f1cd7fd92b14633a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 16/93] fix: replace the extension in default output file names

---
 nappy/utils/common_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 3c0bde4..731eb3b 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -13,6 +13,7 @@ Functions and classes commonly used in nappy.
 # Standard library imports
 from io import StringIO
 import logging
+import os
 
 # Imports from local package
 from nappy import __version__
@@ -102,10 +103,10 @@ def getFileNameWithNewExtension(input_file, format):
     (ii) just appending new extension.
     """
     base_name = input_file
-    last_four = base_name[-4:]
+    last_four = os.path.basename(base_name)[-4:]
     found = last_four.find(".")
     if found > -1:
-        idx = len(base_name) + found
+        idx = len(base_name) - len(last_four) + found
         base_name = base_name[:idx]
     return base_name + "." + format
 
-- 
2.43.0


From a5c77325ead87d4e847338062112a7a45d2ff512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 17/93] fix: convert in-memory Xarray objects to NASA Ames
 files

---
 nappy/nappy_api.py                            | 6 +++---
 nappy/nc_interface/xarray_objs_to_na_files.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index b1e81dd..33ca713 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
diff --git a/nappy/nc_interface/xarray_objs_to_na_files.py b/nappy/nc_interface/xarray_objs_to_na_files.py
index 2197c76..dc478b3 100644
--- a/nappy/nc_interface/xarray_objs_to_na_files.py
+++ b/nappy/nc_interface/xarray_objs_to_na_files.py
@@ -54,5 +54,6 @@ class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
         self.requested_ffi = requested_ffi
 
         self.converted = False
+        self.na_dict_list = []
         self.output_message = []
 
-- 
2.43.0


From c109da764ddb044e1b1512ad6bcae7e4552d07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 18/93] fix: report the FFI that cannot be converted to Xarray
 objects

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..2c7e8b3 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From d59c84818c8c49dfb0796b7bf04a9a1670788f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 19/93] fix: honour append mode when writing NetCDF files

---
 nappy/nc_interface/na_to_nc.py | 224 ++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 112 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..078805a 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,112 +1,112 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 419da89880d2fdef0ecd0a3676bd859175b02741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 20/93] fix: compareNA works on Python 3 and returns its result

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..0507ca3 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -63,7 +63,7 @@ def compareNA(i1, i2, **kwargs):
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
@@ -251,7 +251,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From 273eb408f03c11761382acb16278777000ba2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 21/93] fix: approximate comparison detects values that differ

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 0507ca3..8bd4b42 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -121,14 +121,14 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
 
                     if a != b:
                         
-                        if approx_equal:
+                        if approx_equal and isinstance(a, float) and isinstance(b, float):
                         # Check to see if testing for approximate equality
                             if a == 0:  a = 0.000000001
                             if b == 0:  b = 0.000000001
                             divided = a/b
                             if divided < 1:
                                 divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if abs(divided - 1) > equality_threshold:
                                 same = False
                                 break  
                         else: 
-- 
2.43.0


From 6f6a82a088f0549f20ed7a5e9525d04d8313288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 22/93] fix: sections of different lengths are not the same

---
 nappy/utils/compare_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 8bd4b42..8c95c97 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -79,7 +79,7 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
     if len(l2) < leng:
         leng = len(l2)
 
-    all_same = True
+    all_same = len(l1) == len(l2)
 
     for i in range(leng):
 
-- 
2.43.0


From 3266289b3f0fa17d5516307e0f00f7d565f8af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 23/93] fix: missing values stay missing when scaled in NetCDF
 files

They were multiplied by the scale factor, so that they no longer matched the
_FillValue and became ordinary data.
---
 nappy/nc_interface/na_to_xarray.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2c7e8b3..993863a 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -258,10 +258,8 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # Missing values are not scaled: they must still match the missing value
+        array = np.where(array == miss, miss, array * scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -327,10 +325,7 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        array = np.where(array == miss, miss, array * scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From b1d062e1c8aa93211c61b5afe173d76718e0bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 24/93] fix: keep variables whose NASA Ames names give the same
 NetCDF name

---
 nappy/nc_interface/na_to_nc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 078805a..882a500 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -101,7 +101,16 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         [self.fix_attrs(v) for v in combined_var_list]
 
         # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
+        variables = {}
+        for da in combined_var_list:
+            # Different NASA Ames names can give the same NetCDF name
+            name, count = da.name, 1
+            while name in variables:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
-- 
2.43.0


From a723b49c0a0358cffba8cfffbff0c26b73de008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 25/93] fix: axes that share any value are not necessarily
 identical

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..0be07e6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From 12ae289aa912bdcdbf99556769ec99bda4783bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 26/93] fix: write singleton variables when there are special
 comments

They were lost, along with the markers of the variable attributes, when the
source had special comments of its own, or no variable attributes at all.
---
 nappy/nc_interface/na_content_collector.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..45ebc01 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -682,6 +682,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
+            if spec_comm_flag == None:
+                SCOM = [hp["sc_start"]]
+                spec_comm_flag = 1
+
+            SCOM += rank_zero_vars_string
+
         # Loop through variables and add 
         for var in self.ordered_vars:
             varflag = "unused"
@@ -698,12 +704,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         if var_comm_flag == None:
                             var_comm_flag = 1
 
-                    if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
-                        SCOM.append(hp["addl_vatts"])
-                        SCOM.append(hp["ncatts_start"])
+                            if spec_comm_flag == None:
+                                SCOM = [hp["sc_start"]]
+                                spec_comm_flag = 1
+
+                            SCOM.append(hp["addl_vatts"])
+                            SCOM.append(hp["ncatts_start"])
+
                         varflag = "using" 
-                        spec_comm_flag = 1
 
                     if not var_name_written:
                         SCOM.append("  Variable %s: %s" % (var.name, name))
-- 
2.43.0


From 1001053c190e0fe28887639099487b9c06dbff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 27/93] fix: use locally defined mappings of NetCDF attributes

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 45ebc01..9af5a03 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -522,7 +522,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for att, value in local_nc_atts.items():
             if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
-- 
2.43.0


From 1df64251deef2e5eed50caa80d5e7afa99e9ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 28/93] fix: store the values of uniformly spaced axes as plain
 numbers

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 9af5a03..4914f20 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -509,7 +509,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(axis[:max_length].data.tolist())
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From 9d825e291fb5f2e2ec3c50fc1a1da1dd743c474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 29/93] fix: write time axes in FFIs 2110 and 2310

---
 nappy/nc_interface/na_content_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 4914f20..ecad10b 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -401,7 +401,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_nx = []
                     ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -425,7 +425,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
                     incr = xarray_utils.get_interval(ax2_values, 0, 1)
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
-- 
2.43.0


From 794053f58ad7d1fbb09dd6ed948fa1928165f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 30/93] fix: write the interval of the unbounded axis in FFI
 2310 headers

---
 nappy/nc_interface/na_content_collector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index ecad10b..86eeebb 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -433,14 +433,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Re-assign to new lists
                     self.na_dict["NX"] = new_nx
                     self.na_dict["X"] = new_x
-                    self.na_dict["DX"] = new_dx
+                    # The header holds the interval of the unbounded axis
+                    self.na_dict["DX"] = self.na_dict["DX"][:1] + new_dx
 
                     # Now auxiliary variable info here with independent var info
                     # First three aux vars are NX, X0 and DX
                     self.na_dict["A"] = []
                     self.na_dict["A"].append(self.na_dict["NX"][:])
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
-                    self.na_dict["A"].append(self.na_dict["DX"][:])
+                    self.na_dict["A"].append(new_dx[:])
 
                     ind_var_name = self.na_dict["XNAME"][0]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
-- 
2.43.0


From 5628e915db56bb3b9b4b616aff1444a0fd661733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 31/93] fix: name the bounded axis in the required auxiliary
 variables

---
 nappy/nc_interface/na_content_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 86eeebb..cb705a1 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -412,7 +412,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Now auxiliary variable info here with independent var info
                     # First aux var is NX
                     self.na_dict["A"] = [self.na_dict["NX"][:]]
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name]
                     self.na_dict["AMISS"] = [-9999.999]
                     self.na_dict["ASCAL"] = [1.0]
@@ -443,7 +443,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
                     self.na_dict["A"].append(new_dx[:])
 
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
                                              "'%s' value for first data point" % ind_var_name,
                                              "'%s' increment" % ind_var_name]
-- 
2.43.0


From 30df939de67da22d3c5075777d88b9d2333c0f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 32/93] fix: write converted content more than once

Overriding comments and column headers were added again each time.
---
 nappy/nc_interface/xarray_to_na.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..0dfa8b6 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -267,7 +267,9 @@ class XarrayToNA:
             self.output_message.append(msg)
 
             # Set up current na dict
+            # (Take a copy - so that the converted content can be written again)
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
+            this_na_dict = this_na_dict.copy()
 
             # Override content of NASA Ames if they are permitted
             for key in overriders:
@@ -448,7 +450,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
-- 
2.43.0


From 826b80c63e1b300fc9c00a09ebfa554e09c47b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 33/93] fix: accept a single line of overriding comments

---
 nappy/nc_interface/xarray_to_na.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 0dfa8b6..9495896 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -282,6 +282,9 @@ class XarrayToNA:
                     else:
                         new_item = overriders[key]
 
+                    if key in ("SCOM", "NCOM") and isinstance(new_item, str):
+                        new_item = [new_item]
+
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
 
-- 
2.43.0


From afb7d01eb2787a2d9343aa9b879dc08311bf89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 34/93] fix: name the files of split output after the requested
 file

The extension was assumed to be '.na', and each file was reported twice.
---
 nappy/nc_interface/xarray_to_na.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 9495896..cda201a 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -406,8 +407,8 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
-            file_names.append(file_name_plus_letter)
+            base_name, extension = os.path.splitext(file_name)
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-- 
2.43.0


From 76fd95b2c6e452be71e978dcb1fa9f309cefe60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 35/93] fix: honour no_header when splitting output files

---
 nappy/nc_interface/xarray_to_na.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index cda201a..cb8b1be 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -319,7 +319,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -371,7 +371,7 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
@@ -412,7 +412,8 @@ class XarrayToNA:
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation,
+                    no_header=no_header)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 252639e0abeb6b6ec8d420bcb7f7e2c3710ffd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 36/93] fix: accept the documented -l option in nc2na and
 nc2csv

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From ade0ab7e36445b6685ae69420e9b836b3893f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 37/93] fix: nc2csv writes commas, to a .csv file, when run as
 a command

---
 nappy/script/nc2csv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..ad4bb48 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -124,6 +124,11 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
+    arg_dict["delimiter"] = ","
+
+    if arg_dict["na_file"] is None:
+        arg_dict["na_file"] = nappy.getFileNameWithNewExtension(arg_dict["nc_file"], "csv")
+
     csv_files = nappy.convertNCToNA(**arg_dict)
 
     # If user only wants files then only give them that
-- 
2.43.0


From b79781497ed556ee05a6a0a3d6342b2e88b09f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 38/93] fix: write auxiliary coordinates in the same order
 every time

---
 nappy/nc_interface/xarray_to_na.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index cb8b1be..16dca3e 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -526,8 +526,9 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
-                                  if coord not in var.dims])
+        # (collected in a dictionary so that their order is always the same)
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
+                                            if coord not in var.dims])
 
         # Compile into one list of variable to convert
         xr_variables = [xr_dset[key] for key in main_var_keys]
-- 
2.43.0


From 84338ad6e747306c5701597515a9eb477b7f2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 39/93] fix: keep variables defined on a regular subset of the
 main axis

They were taken as a sign that FFI 1020 was wanted and then lost. They are now
auxiliary variables when that FFI is requested, or left for another file.
---
 nappy/nc_interface/na_content_collector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index cb705a1..b83564b 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -197,10 +197,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
                         # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
+                        if nvpm and self.requested_ffi == 1020 and number_of_dims == 1 and \
+                                self.na_dict.get("NVPM", nvpm) == nvpm:
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
-                        else: # if returned False, i.e. not regular subset axis
+                            aux_vars_for_na.append(var)
+                        else: # if returned False, i.e. not regular subset axis, or 1020 not wanted
                             self.unused_vars.append(var)
 
                     else:
@@ -387,6 +389,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 # If FFI is 1020 need to reduce axis down to reduced values as most are implied
                 if self.na_dict["FFI"] == 1020: 
+                    if self.na_dict["DX"] == [0]:
+                        raise Exception("Cannot write this data to FFI '1020', the axis is not at a constant interval.")
+
                     vals = self.na_dict["X"]
                     self.na_dict["X"] = vals[0:len(vals):self.na_dict["NVPM"]] 
 
-- 
2.43.0


From 277d40c9447cbfe14ccf955039383ba652c0f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 40/93] fix: keep variables that carry the same NASA Ames
 variable number

---
 nappy/nc_interface/na_content_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index b83564b..6555b2d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -253,7 +253,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
-            if hasattr(var, "nasa_ames_var_number"):
+            if hasattr(var, "nasa_ames_var_number") and ordered_vars[var.nasa_ames_var_number] is None:
                 ordered_vars[var.nasa_ames_var_number] = var
             else:
                 other_vars.append(var)
@@ -271,7 +271,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         other_aux_vars = []
 
         for var in aux_vars_for_na:
-            if hasattr(var, "nasa_ames_aux_var_number"):
+            if hasattr(var, "nasa_ames_aux_var_number") and ordered_aux_vars[var.nasa_ames_aux_var_number] is None:
                 ordered_aux_vars[var.nasa_ames_aux_var_number] = var
             else:
                 other_aux_vars.append(var)
-- 
2.43.0


From 17ed1c3c242f55647e56223ed62a67f5901066f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 41/93] fix: writeNADictToNC writes the dictionary to NetCDF

It used a class and methods that do not exist.
---
 nappy/nappy_api.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 33ca713..3e4fad6 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -123,6 +123,8 @@ ffi = nappy.chooseFFI(na_dict)
 
 # Import standard library modules
 import logging
+import os
+import tempfile
 log = logging.getLogger(__name__)
 
 # Import local modules
@@ -365,32 +367,17 @@ def writeNADictToNC(na_dict, nc_file, mode="w"):
     Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
     Note that mode="a" might not always work.
     """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
+    # Write the dictionary to a temporary file, keeping the full precision, so that it can be converted
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        na_file = os.path.join(tmp_dir, "na_dict.na")
 
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
+        fout = openNAFile(na_file, "w", na_dict=na_dict.copy())
+        fout.write(float_format="%.17g")
+        fout.close()
 
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
+        convertNAToNC(na_file, nc_file, mode=mode, time_warning=False)
 
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
+    log.info("NetCDF file '%s' written successfully." % nc_file)
     return True
 
 
-- 
2.43.0


From f13404b1895bea18af2a017c8add6703e97c00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 42/93] fix: use an array's own time units when writing its
 times

Time axes with another name than 'time' could not be written, and variables
holding times were written in the units of the time axis.
---
 nappy/nc_interface/xarray_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 0be07e6..c313e02 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,8 +286,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
+    # Use the units of the array itself, or of its time axis if it has none
+    encoding = da.encoding if 'units' in da.encoding else da.time.encoding
+    units = encoding['units']
+    calendar = encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
     return arr
 
-- 
2.43.0


From 4701ffe04cd5d63ac093d9f6c08bdf679e879538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 43/93] fix: declare the missing values as they are printed in
 the data

---
 nappy/nc_interface/na_content_collector.py |  4 ++++
 nappy/nc_interface/xarray_to_na.py         | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 6555b2d..8cb3239 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -331,6 +331,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             else:
                 item = item[0]
 
+        # Single precision values must be stated exactly as they are in the data
+        if isinstance(item, np.floating):
+            item = float(item)
+
         return item
 
     def _defineNAVars(self, vars):
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 16dca3e..bebe3b6 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -310,6 +310,10 @@ class XarrayToNA:
                         if DEBUG: log.debug(msg)
                         self.output_message.append(msg)
 
+            # The missing values declared in the header must match those printed in the data
+            for key in ("VMISS", "AMISS"):
+                this_na_dict[key] = [self._getPrintedValue(miss, float_format) for miss in this_na_dict[key]]
+
             # For certain FFIs create final Normal comments as a list of column headers before data section 
             if add_column_headers:
                 self._updateWithColumnHeaders(this_na_dict, delimiter)
@@ -426,6 +430,17 @@ class XarrayToNA:
 
         return file_names
 
+    def _getPrintedValue(self, value, float_format):
+        """
+        Returns the value that is read back when value is printed with float_format.
+        """
+        printed_value = float(float_format % value)
+
+        if printed_value == value:
+            return value
+
+        return printed_value
+
     def _updateWithColumnHeaders(self, na_dict, delimiter):
         """
         Updates the NCOM and NCOML parts of the na_dict so that 
-- 
2.43.0


From f9f67da8fa46d7f5b043d1221b35c6db2b4c4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 44/93] fix: do not declare NaN as the missing value

---
 nappy/nc_interface/xarray_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index c313e02..24e6ad8 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -67,7 +67,9 @@ def getBestName(var):
 
 def getMissingValue(var):
     """
-    Returns the missing value or defaults to -1.e20
+    Returns the missing value or defaults to -1.e20 (also if the
+    missing value is NaN, which is not a number that a NASA Ames
+    file can hold).
     """
     miss = None
 
@@ -77,7 +79,7 @@ def getMissingValue(var):
                 miss = var.encoding[key]
                 break
 
-    if miss is None:
+    if miss is None or np.isnan(miss).any():
         miss = -1.e20
 
     return miss
-- 
2.43.0


From ee46ce0ffe23ac3766c0a8f653e3fe487809fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 45/93] fix: keep multi-line text attributes on their header
 line

---
 nappy/nc_interface/na_content_collector.py | 11 +++++------
 nappy/nc_interface/xarray_utils.py         | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8cb3239..594a3d4 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -566,9 +566,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.na_dict["ONAME"] = value
                         self.na_dict["ORG"] = value
 
-                    # NOTE: should probably do the following search and replace on all string lines
-                    self.na_dict["ONAME"] = self.na_dict["ONAME"].replace("\n", "  ")
-                    self.na_dict["ORG"] = self.na_dict["ORG"].replace("\n", "  ")
+                    self.na_dict["ONAME"] = xarray_utils.joinLines(self.na_dict["ONAME"])
+                    self.na_dict["ORG"] = xarray_utils.joinLines(self.na_dict["ORG"])
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
@@ -614,7 +613,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
-                    self.na_dict[local_nc_to_na_map[key]] = value
+                    self.na_dict[local_nc_to_na_map[key]] = xarray_utils.joinLines(value)
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
 
@@ -741,7 +740,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in NCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = c.splitlines()
                 for line in lines:
                     if line != lines[0]: 
                         line = "  " + line
@@ -751,7 +750,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in SCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = c.splitlines()
 
                 for line in lines:
                     if line != lines[0]: 
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 24e6ad8..738bcd5 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -42,6 +42,7 @@ def getBestName(var):
     if not name:
         raise Exception("Cannot find a valid name for variable.")
 
+    name = joinLines(name)
     units = getattr(var, "units", "")
 
     # See if we can get the units from the encoding if not defined.
@@ -49,7 +50,7 @@ def getBestName(var):
     if not units:
         units = var.encoding.get("units", "")
 
-    units = units.strip()
+    units = joinLines(units).strip()
 
     if units:
         name = f"{name} ({units})"
@@ -65,6 +66,17 @@ def getBestName(var):
     return name
 
 
+def joinLines(value):
+    """
+    Returns the text on one line, because it fills one header line in
+    a NASA Ames file. Anything that is not text is returned unchanged.
+    """
+    if not isinstance(value, str):
+        return value
+
+    return "  ".join(value.splitlines())
+
+
 def getMissingValue(var):
     """
     Returns the missing value or defaults to -1.e20 (also if the
-- 
2.43.0


From 5c6b7b55227bd16600547b98db7ac2ef106def71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 46/93] fix: write times on axes other than the first

---
 nappy/nc_interface/na_content_collector.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 594a3d4..d9b44c7 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -408,7 +408,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
                     for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
@@ -431,7 +431,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
                     incr = xarray_utils.get_interval(ax2_values, 0, 1)
 
                     for i in self.na_dict["X"][0]:
@@ -492,6 +492,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         NASA Ames). It appends to the various self.na_dict containers.
         """
         length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -500,16 +501,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)        
             return
 
         incr = xarray_utils.get_interval(axis, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(axis, i - 1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -519,7 +520,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length].data.tolist())
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From 86375ebaa81db776bb481a060e632daae1e9e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 47/93] fix: keep scaled values that equal the missing value

---
 nappy/nc_interface/na_to_xarray.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 993863a..2f5fb61 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -38,6 +38,7 @@ hp = header_partitions
 safe_nc_id = re.compile(r"[\/\s\[\(\)\]\=\+\-\?\#\~\@\&\$\%\!\*\{\}\^]+")
 time_units_pattn = re.compile(r"\w+\s+since\s+\d{1,4}-\d{1,2}-\d{1,2}(\s+\d+:\d+:\d+)?")
 max_id_length = 64
+default_fill_value = 9.969209968386869e+36
 special_comment_known_strings = (hp["sc_start"], hp["sc_end"], hp["addl_vatts"],
                                   hp["addl_globals"], "\n")
 
@@ -243,6 +244,19 @@ class NADictToXarrayObjects:
                     else:
                         raise Exception(f"Variable name not known: {var_name}")
 
+    def _scaleArray(self, array, miss, scal):
+        """
+        Returns the tuple (scaled_array, missing_value). Missing values are not
+        scaled, and the missing value is replaced if any scaled value equals it.
+        """
+        is_missing = (array == miss)
+        scaled = array * scal
+
+        if np.any(scaled[~is_missing] == miss):
+            miss = default_fill_value
+
+        return np.where(is_missing, miss, scaled), miss
+
     def _convertNAToXarrayVariable(self, var_number, attributes=None):
         """
         Creates a single Xarray variable from the variable number provided in the list.
@@ -258,8 +272,7 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        # Missing values are not scaled: they must still match the missing value
-        array = np.where(array == miss, miss, array * scal)
+        (array, miss) = self._scaleArray(array, miss, scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -325,7 +338,7 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
-        array = np.where(array == miss, miss, array * scal)
+        (array, miss) = self._scaleArray(array, miss, scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From fc666dcc0f61c8db284fb19ed530210ed1e5114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 48/93] fix: NetCDF names that clash with an axis or are not
 valid

---
 nappy/nc_interface/na_to_nc.py     | 12 +------
 nappy/nc_interface/na_to_xarray.py | 50 ++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 882a500..a184038 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -101,17 +101,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         [self.fix_attrs(v) for v in combined_var_list]
 
         # Create the Datset
-        variables = {}
-        for da in combined_var_list:
-            # Different NASA Ames names can give the same NetCDF name
-            name, count = da.name, 1
-            while name in variables:
-                count += 1
-                name = f"{da.name}_{count}"
-
-            variables[name] = da
-
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        ds = xr.Dataset(dict([(v.name, v) for v in combined_var_list]), attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
         # Write to NetCDF
diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2f5fb61..87e7591 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -127,6 +127,13 @@ class NADictToXarrayObjects:
         else:
             self.xr_aux_variables = []
             
+        # Different NASA Ames names can give the same NetCDF name
+        used_names = [axis.name for axis in self.xr_axes]
+
+        for var in self.xr_variables + self.xr_aux_variables:
+            var.name = self._getUniqueName(var.name, used_names)
+            used_names.append(var.name)
+
         self.converted = True
         return (self.xr_variables, self.xr_aux_variables, self.global_attributes)
 
@@ -286,8 +293,8 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] =units
     
-        if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
+        if 0 < len(var_name) < max_id_length:
+            var_name = self._getSafeId(var_name)
         else:
             var_name = "naVariable_%s" % (var_number)
 
@@ -356,8 +363,8 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
+        if 0 < len(var_name) < max_id_length:
+            var_name = self._getSafeId(var_name)
         else:
             var_name = f"naAuxVariable_{avar_number}"
 
@@ -381,8 +388,39 @@ class NADictToXarrayObjects:
 
         for ivar_number in range(self.na_file_obj.NIV):
             axis = self._convertNAIndVarToXarrayAxis(ivar_number)
+
+            # Different NASA Ames names can give the same NetCDF name
+            name = self._getUniqueName(axis.name, [ax.name for ax in self.xr_axes])
+
+            if name != axis.name:
+                axis = axis.rename({axis.name: name}).rename(name)
+                axis.attrs["name"] = name
+
             self.xr_axes.append(axis)
 
+    def _getUniqueName(self, name, used_names):
+        """
+        Returns the name, with a number added if it is one of used_names.
+        """
+        new_name, count = name, 1
+
+        while new_name in used_names:
+            count += 1
+            new_name = f"{name}_{count}"
+
+        return new_name
+
+    def _getSafeId(self, name):
+        """
+        Returns the name in the form of a valid NetCDF name.
+        """
+        name = safe_nc_id.sub("_", name).lower()
+
+        if re.match(r"[!-/:-@\[-^`{-~]", name):
+            name = "_" + name
+
+        return name
+
     def _convertNAIndVarToXarrayAxis(self, ivar_number):
         """
         Creates an Xarray axis from a NASA Ames independent variable.
@@ -406,8 +444,8 @@ class NADictToXarrayObjects:
         if units:   
              axis.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
-            axis.name = safe_nc_id.sub("_", var_name).lower()
+        if 0 < len(var_name) < max_id_length:
+            axis.name = self._getSafeId(var_name)
         else:
             axis.name = f"naIndVariable_{ivar_number}"
 
-- 
2.43.0


From e91c8e8e39ed33a11eb412944c93eff15aec32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 49/93] fix: keep the stated units of a time axis when no
 others are given

---
 nappy/nc_interface/na_to_xarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 87e7591..f2f1188 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -477,9 +477,12 @@ class NADictToXarrayObjects:
                 self.output_message.append(message)
                 self.time_units = time_units_input
 
-            axis.attrs["units"] = self.time_units
-            axis.encoding["units"] = self.time_units
-            axis.attrs["long_name"] = f"time ({self.time_units})"
+            # Keep what the file states if there are no other time units
+            if self.time_units:
+                axis.attrs["units"] = self.time_units
+                axis.encoding["units"] = self.time_units
+                axis.attrs["long_name"] = f"time ({self.time_units})"
+
             axis.name = "time"
 
         axis.attrs["name"] = axis.name
-- 
2.43.0


From 768712d956ef67bc706652d7f2eb6aba9df42114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 50/93] fix: unknown auxiliary variables and variable names
 that start with a digit

---
 nappy/nc_interface/na_to_xarray.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index f2f1188..4a6f925 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -234,7 +234,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.fullmatch(r"\d+", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
@@ -321,10 +321,11 @@ class NADictToXarrayObjects:
                 self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
         else:
-            if type(self.aux_variables[0]) == type(1): # They are integers = indices
+            # If integers or numbers: then use as indices for selecting variables
+            if isinstance(self.aux_variables[0], int) or re.fullmatch(r"\d+", str(self.aux_variables[0])):
 
                 for avar_number in self.aux_variables:
-                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))   
+                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(int(avar_number)))   
 
             elif type(self.aux_variables[0]) == type("string"): # They are strings
 
@@ -333,8 +334,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception("Auxiliary variable name not known: " + avar_name)
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From 96d2e06c25f16072ee543d0dfdda79a10b87e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 51/93] fix: empty text attributes and large integers in NetCDF
 attributes

---
 nappy/nc_interface/na_to_nc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index a184038..62c63d0 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -69,11 +69,11 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         returns them.
         """
         def to_np_int(_value):
-            return np.int32(_value)
+            return np.int32(_value) if abs(_value) < 2**31 else np.int64(_value)
 
         value = dct.get(key)
 
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
             dct[key] = [to_np_int(v) for v in value]
         elif isinstance(value, int):
             dct[key] = to_np_int(value)
-- 
2.43.0


From 5de65f93893c71f81885dc319d3baf18ada143ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 52/93] fix: restore the original line endings of two files

---
 nappy/nappy_api.py             | 836 ++++++++++++++++-----------------
 nappy/nc_interface/na_to_nc.py | 222 ++++-----
 2 files changed, 529 insertions(+), 529 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 3e4fad6..08cadd5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,418 +1,418 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-import os
-import tempfile
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-
-    arg_dict["na_file"] = csv_file
-    arg_dict["delimiter"] = ","
-
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_files
-    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Write the dictionary to a temporary file, keeping the full precision, so that it can be converted
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        na_file = os.path.join(tmp_dir, "na_dict.na")
-
-        fout = openNAFile(na_file, "w", na_dict=na_dict.copy())
-        fout.write(float_format="%.17g")
-        fout.close()
-
-        convertNAToNC(na_file, nc_file, mode=mode, time_warning=False)
-
-    log.info("NetCDF file '%s' written successfully." % nc_file)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+import os
+import tempfile
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Write the dictionary to a temporary file, keeping the full precision, so that it can be converted
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        na_file = os.path.join(tmp_dir, "na_dict.na")
+
+        fout = openNAFile(na_file, "w", na_dict=na_dict.copy())
+        fout.write(float_format="%.17g")
+        fout.close()
+
+        convertNAToNC(na_file, nc_file, mode=mode, time_warning=False)
+
+    log.info("NetCDF file '%s' written successfully." % nc_file)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 62c63d0..fd2abcb 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,111 +1,111 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value) if abs(_value) < 2**31 else np.int64(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        ds = xr.Dataset(dict([(v.name, v) for v in combined_var_list]), attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name, mode=mode)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value) if abs(_value) < 2**31 else np.int64(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        ds = xr.Dataset(dict([(v.name, v) for v in combined_var_list]), attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 8303c3ab35b458729cdccb9cf82270826c8643f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 53/93] fix: rename variables whose names have blanks or
 capitals

---
 nappy/nc_interface/na_to_xarray.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 4a6f925..729bfaa 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -85,7 +85,8 @@ class NADictToXarrayObjects:
         self.global_attributes = global_attributes
         self.time_units = time_units
         self.time_warning = time_warning
-        self.rename_variables = {key.lower(): value for key, value in rename_variables.items()}
+        # The names to replace can be given as they are in the NASA Ames file
+        self.rename_variables = {self._getSafeId(key): value for key, value in rename_variables.items()}
 
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
@@ -370,8 +371,8 @@ class NADictToXarrayObjects:
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        if var_name.lower() in self.rename_variables.keys():
+            var_name = self.rename_variables[var_name.lower()]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
-- 
2.43.0


From 3ace16413cf9580bdeb7ffb2fa5d5fe7bbd82b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 54/93] fix: do not overwrite existing variables when appending
 to a NetCDF file

---
 nappy/nc_interface/na_to_nc.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index fd2abcb..1dc292f 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -11,6 +11,7 @@ Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
 """
 
 # Imports from python standard library
+import os
 import logging
 from collections.abc import Sequence
 
@@ -85,6 +86,22 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         for key in obj.attrs:
             self.fix_ints(obj.attrs, key)
 
+    def _checkCanAppend(self, ds, file_name):
+        """
+        Raises an exception if writing the dataset to the file would overwrite a variable
+        or change the axis of a variable that the file already holds.
+        """
+        with xr.open_dataset(file_name, decode_cf=False) as existing:
+
+            for name in ds.variables:
+
+                if name not in existing.variables:
+                    continue
+
+                if name not in ds.coords or ds[name].attrs.get("units") != existing[name].attrs.get("units") \
+                        or not np.array_equal(ds[name].data, existing[name].data):
+                    raise Exception(f"Cannot append to '{file_name}', it already holds a different variable: {name}")
+
     def writeNCFile(self, file_name, mode="w"):
         """
         Writes the NASA Ames content that has been converted into Xarray objects to a
@@ -104,6 +121,9 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         ds = xr.Dataset(dict([(v.name, v) for v in combined_var_list]), attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
+        if mode == "a" and os.path.exists(file_name):
+            self._checkCanAppend(ds, file_name)
+
         # Write to NetCDF
         ds.to_netcdf(file_name, mode=mode)
 
-- 
2.43.0


From a168cdb7db0621138a4590fa8a7299a0425c6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 55/93] fix: allow an empty selection of auxiliary variables

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 729bfaa..dbcf76c 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -321,7 +321,7 @@ class NADictToXarrayObjects:
             for avar_number in range(self.na_file_obj.NAUXV):
                 self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
-        else:
+        elif len(self.aux_variables) > 0:
             # If integers or numbers: then use as indices for selecting variables
             if isinstance(self.aux_variables[0], int) or re.fullmatch(r"\d+", str(self.aux_variables[0])):
 
-- 
2.43.0


From a1b4390a2cddaf9fee1e0e372192c2cc891c475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 56/93] fix: select variables by name if the name is a number

---
 nappy/nc_interface/na_to_xarray.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index dbcf76c..b3151a7 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -235,7 +235,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.fullmatch(r"\d+", str(self.variables[0])):
+            if self._areIndices(self.variables, self.na_file_obj.VNAME):
 
                 for var_number in self.variables:
                     vn = int(var_number)
@@ -252,6 +252,13 @@ class NADictToXarrayObjects:
                     else:
                         raise Exception(f"Variable name not known: {var_name}")
 
+    def _areIndices(self, selection, names):
+        """
+        Returns True if the selection is made by index rather than by name.
+        """
+        first = selection[0]
+        return isinstance(first, int) or (first not in names and re.fullmatch(r"\d+", str(first)) is not None)
+
     def _scaleArray(self, array, miss, scal):
         """
         Returns the tuple (scaled_array, missing_value). Missing values are not
@@ -323,7 +330,7 @@ class NADictToXarrayObjects:
 
         elif len(self.aux_variables) > 0:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.aux_variables[0], int) or re.fullmatch(r"\d+", str(self.aux_variables[0])):
+            if self._areIndices(self.aux_variables, self.na_file_obj.ANAME):
 
                 for avar_number in self.aux_variables:
                     self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(int(avar_number)))   
-- 
2.43.0


From e60bb432f7806379b33585d90d51924ced043c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 57/93] fix: keep the missing value exact in single precision
 data

---
 nappy/nc_interface/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 738bcd5..6a2b067 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -335,7 +335,8 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
         found_nans = np.isnan(arr).any()
 
         if found_nans:
-            arr = da.fillna(missing_value).data
+            # Use double precision so that the missing value is kept exactly
+            arr = np.where(np.isnan(arr), missing_value, arr.astype("float64"))
         else:
             arr = da.data
 
-- 
2.43.0


From fd5a0f768639e970f3a9c08315ede2b8b14ccb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 58/93] fix: variables with more than one time, level, latitude
 or longitude

---
 nappy/nc_interface/xarray_utils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 6a2b067..59be813 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,9 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     If check_id == False then don't compare the ids of the axes.
     """
     for axtype in ("time", "level", "latitude", "longitude"):
-        if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
+        names = [_getCFName(ax, axtype) for ax in (ax1, ax2)]
+
+        if None not in names and names[0] != names[1]:
             return False
 
     # Check ids
@@ -184,6 +186,20 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     return True
 
 
+def _getCFName(coord, key):
+    """
+    Returns the name of the (only) coordinate of ``coord`` that is identified by the CF
+    key, or None.
+    """
+    if key not in coord.cf:
+        return None
+
+    try:
+        return coord.cf[key].name
+    except KeyError:  # There are several of them
+        return None
+
+
 def is_latitude(coord):
     """
     Determines if a coordinate is latitude.
@@ -192,7 +208,7 @@ def is_latitude(coord):
     :return: (bool) True if the coordinate is latitude.
     """
 
-    if "latitude" in coord.cf and coord.cf["latitude"].name == coord.name:
+    if coord.name is not None and _getCFName(coord, "latitude") == coord.name:
         return True
 
     if coord.attrs.get("standard_name", None) == "latitude":
@@ -208,7 +224,7 @@ def is_longitude(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is longitude.
     """
-    if "longitude" in coord.cf and coord.cf["longitude"].name == coord.name:
+    if coord.name is not None and _getCFName(coord, "longitude") == coord.name:
         return True
 
     if coord.attrs.get("standard_name", None) == "longitude":
@@ -224,7 +240,7 @@ def is_level(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is level.
     """
-    if "vertical" in coord.cf and coord.cf["vertical"].name == coord.name:
+    if coord.name is not None and _getCFName(coord, "vertical") == coord.name:
         return True
 
     if hasattr(coord, "positive"):
@@ -246,7 +262,7 @@ def is_time(coord, test_by_values=False):
     :test_by_values: boolean to decide whether to identify by checking first value type
     :return: (bool) True if the coordinate is time.
     """
-    if "time" in coord.cf and coord.cf["time"].name == coord.name:
+    if coord.name is not None and _getCFName(coord, "time") == coord.name:
         return True
 
     if np.issubdtype(coord.dtype, np.datetime64):
-- 
2.43.0


From a3ce196b506471709771d435a41a329fd6c17412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 59/93] fix: compare time axes of different calendars

---
 nappy/nc_interface/xarray_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 59be813..ae5b0ec 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -120,6 +120,14 @@ def isUniformlySpaced(arr):
     return all(np.linspace(start, end, length) == arr)
 
 
+def getCalendar(axis):
+    """
+    Returns the calendar of the times along the axis, or None if they are not (cftime) times.
+    """
+    values = np.atleast_1d(axis.values)
+    return getattr(values[0], "calendar", None) if len(values) else None
+
+
 def isAxisRegularlySpacedSubsetOf(ax1, ax2):
     """
     Returns True if ax1 is same as ax2 except that it is only defined on a
@@ -154,6 +162,10 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     if getattr(ax1, 'units', None) != getattr(ax2, 'units', None):
         return False
 
+    # Times in different calendars cannot be compared
+    if getCalendar(ax1) != getCalendar(ax2):
+        return False
+
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-- 
2.43.0


From b78c17903765ed86ab1e19613f175133bbc92ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 60/93] fix: unpacked values equal to the packed missing value

---
 nappy/nc_interface/xarray_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index ae5b0ec..d85a2f9 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -94,6 +94,11 @@ def getMissingValue(var):
     if miss is None or np.isnan(miss).any():
         miss = -1.e20
 
+    # The missing value of packed data can be equal to an unpacked value that is not missing
+    elif ("scale_factor" in var.encoding or "add_offset" in var.encoding) and \
+            np.any(resolve_array(var.data) == miss):
+        miss = -1.e20
+
     return miss
 
 
-- 
2.43.0


From 07f9f3b0076e2d298c37c2a4894da43efdcc761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 61/93] fix: date of data with other calendars

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index d9b44c7..c1135a1 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -786,6 +786,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -793,7 +794,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar=calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
-- 
2.43.0


From 1d67a7cec38376cf370bacdbdabab3fde1803c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 62/93] fix: predicted names of files that are split

---
 nappy/nappy_api.py                 |  2 +-
 nappy/nc_interface/xarray_to_na.py | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 08cadd5..fc3bee6 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -287,7 +287,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
 
     # If user only wants files then only give them that
     if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
+        return convertor.constructNAFileNames(na_file, size_limit)
     else:
         convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
                                size_limit=size_limit, annotation=annotation, no_header=no_header)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index bebe3b6..0effc66 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -196,10 +196,11 @@ class XarrayToNA:
 	     
         return ret_variables
 
-    def constructNAFileNames(self, na_file=None):
+    def constructNAFileNames(self, na_file=None, size_limit=None):
         """
         Works out what the file names of the output NA files will be and 
-        returns a list of them.
+        returns a list of them. If size_limit is given then the names include
+        those of files that are split because they exceed it.
         """
         if not self.converted:
             self.convert()
@@ -224,9 +225,31 @@ class XarrayToNA:
                 suffix = f"_{file_counter}"
                 new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
                 file_names.append(new_name)
-	    
+
+        if size_limit is not None:
+            split_file_names = []
+
+            for file_name, (na_dict, var_ids) in zip(file_names, self.na_dict_list):
+                split_file_names += self._getSplitFileNames(na_dict, file_name, size_limit)
+
+            file_names = split_file_names
+
         return file_names
 
+    def _getSplitFileNames(self, na_dict, file_name, size_limit):
+        """
+        Returns the list of file names that na_dict is written to: either just
+        file_name or, if the size_limit is exceeded and FFI is 1001, one for each
+        of the files it is split into.
+        """
+        if size_limit is None or na_dict["FFI"] != 1001 or len(na_dict["V"][0]) <= size_limit:
+            return [file_name]
+
+        nvol = -(-len(na_dict["V"][0]) // size_limit)
+        base_name, extension = os.path.splitext(file_name)
+
+        return [f"{base_name}-{ivol:03d}{extension}" for ivol in range(1, nvol + 1)]
+
     def writeNAFiles(self, na_file=None, delimiter=default_delimiter, annotation=False,
                      float_format=default_float_format, size_limit=None, no_header=False):
         """
-- 
2.43.0


From 96f00864595ec62510ea0ccfd2ea956263b3395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 63/93] fix: names of several output files if the given name
 has no extension

---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 0effc66..9f40aa6 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -213,7 +213,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        base_name, extension = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -223,7 +223,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = base_name + suffix + extension
                 file_names.append(new_name)
 
         if size_limit is not None:
-- 
2.43.0


From 4f25e2a26d1a2e67ecb0aa945052c87f12fb0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 64/93] fix: list items to override given as lists

---
 nappy/nc_interface/xarray_to_na.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 9f40aa6..737121c 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -300,7 +300,10 @@ class XarrayToNA:
 
                 if key in permitted_overwrite_metadata:    
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        new_item = overriders[key]
+                        if isinstance(new_item, str):
+                            new_item = new_item.split()
+
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
                     else:
-- 
2.43.0


From 04c61a78c17f4a4099b07a80978d8452d564b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 65/93] fix: override the date of data from NASA Ames

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index c1135a1..60c952c 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -609,7 +609,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    self.na_dict["DATE"] = value
+                    self.na_dict["DATE"] = value.tolist() if hasattr(value, "tolist") else value
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From ee6292bcf0c9a9c36430f4b744eb1b366f4fdcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 66/93] fix: axis names that went through NetCDF

---
 nappy/nc_interface/xarray_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index d85a2f9..16cd0f0 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -52,12 +52,16 @@ def getBestName(var):
 
     units = joinLines(units).strip()
 
+    # These are the units given to an axis without units when converting from NASA Ames
+    if units == "Not known":
+        units = ""
+
     if units:
         name = f"{name} ({units})"
 
         if name.count(f"({units})") > 1:
             name = name.replace(f"({units})", "")  # remove all (units) and start again
-            name = f"{name}({units})"              # using the space inserted last time
+            name = f"{name.strip()} ({units})"
 
     # Remove empty parentheses from end of name if there
     if name[-2:] == "()": 
-- 
2.43.0


From e4840754413bff2f2470741028140a269e87d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 67/93] fix: convert auxiliary variables of FFI 1020

---
 nappy/nc_interface/na_to_xarray.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index b3151a7..e05b098 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -129,7 +129,7 @@ class NADictToXarrayObjects:
             self.xr_aux_variables = []
             
         # Different NASA Ames names can give the same NetCDF name
-        used_names = [axis.name for axis in self.xr_axes]
+        used_names = [axis.name for axis in self.xr_axes + self.xr_aux_axes]
 
         for var in self.xr_variables + self.xr_aux_variables:
             var.name = self._getUniqueName(var.name, used_names)
@@ -365,7 +365,7 @@ class NADictToXarrayObjects:
             self._convertXarrayAxes()
 
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_aux_axes, 
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
@@ -407,6 +407,20 @@ class NADictToXarrayObjects:
 
             self.xr_axes.append(axis)
 
+        # Auxiliary variables are defined against the first axis
+        self.xr_aux_axes = self.xr_axes[:1]
+
+        # But only at the values that are stated in the file if the others are implied
+        if self.na_file_obj.FFI == 1020 and self.na_file_obj.NVPM > 1:
+            axis = self.xr_axes[0]
+            name = self._getUniqueName(axis.name, [axis.name])
+
+            axis = axis[::self.na_file_obj.NVPM]
+            axis = axis.rename({axis.name: name}).rename(name)
+            axis.attrs["name"] = name
+
+            self.xr_aux_axes = [axis]
+
     def _getUniqueName(self, name, used_names):
         """
         Returns the name, with a number added if it is one of used_names.
-- 
2.43.0


From 4588af0817ae94a152c51bf4866d60147180ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 68/93] fix: convert times without a date from NetCDF

---
 nappy/nc_interface/xarray_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 16cd0f0..ffbe8a0 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -337,6 +337,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
+    # Times without a date are numbers already
+    if np.issubdtype(da.dtype, np.number):
+        return da.data
+
     # Use the units of the array itself, or of its time axis if it has none
     encoding = da.encoding if 'units' in da.encoding else da.time.encoding
     units = encoding['units']
-- 
2.43.0


From 9f14679cb6b3d3ad5903ba5bb4c69d5bd72e8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 69/93] fix: keep the known date if the times have no date

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 60c952c..84873c8 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -799,7 +799,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 msg = warning_message
                 log.info(msg)
                 self.output_message.append(msg)
-                self.na_dict["DATE"] = [999] * 3 
+                # Keep the date if it is known from the attributes
+                self.na_dict.setdefault("DATE", [999] * 3)
 
         else: 
             if not "DATE" in self.na_dict:
-- 
2.43.0


From 2175b9edf8e7e394d9c3f3c894a48f996b20b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 70/93] fix: attributes must not replace the format index of
 the content

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 84873c8..be3c314 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -538,6 +538,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
         for key, value in self.globals.items():
+            # These items follow from the content
+            if local_nc_to_na_map.get(key) in ("NLHEAD", "FFI", "IVOL", "NVOL"):
+                continue
+
             if key != "first_valid_date_of_data" and \
                     type(value) not in (str, int, float):
                 continue
-- 
2.43.0


From 60a13ad52681ed19b3bdeaec8fcc0192de9617b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 71/93] fix: keep numbers in global attributes

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index be3c314..d07051d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -542,6 +542,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             if local_nc_to_na_map.get(key) in ("NLHEAD", "FFI", "IVOL", "NVOL"):
                 continue
 
+            # Numbers read from a NetCDF file
+            if isinstance(value, np.number):
+                value = value.item()
+
             if key != "first_valid_date_of_data" and \
                     type(value) not in (str, int, float):
                 continue
-- 
2.43.0


From c24c409d61c7c7d6051b42a53f26c3e3014038db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 72/93] fix: write in-memory times that have no encoding

---
 nappy/nc_interface/na_content_collector.py |  3 +-
 nappy/nc_interface/xarray_utils.py         | 46 +++++++++++++++++++---
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index d07051d..c58a889 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -793,8 +793,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if xarray_utils.is_time(self.ax0):
             # Get first date in list
             try:
-                units = self.ax0.encoding["units"]
-                calendar = self.ax0.encoding.get("calendar", "standard")
+                units, calendar = xarray_utils.getTimeEncoding(self.ax0)
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index ffbe8a0..e007747 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -50,6 +50,10 @@ def getBestName(var):
     if not units:
         units = var.encoding.get("units", "")
 
+    # Times that are not from a file might not have any yet
+    if not units and isinstance(var, xr.DataArray) and has_dates(var):
+        units = getTimeEncoding(var)[0]
+
     units = joinLines(units).strip()
 
     # These are the units given to an axis without units when converting from NASA Ames
@@ -336,17 +340,47 @@ def create_data_array(arr, name, coords, attrs, fill_value):
     return da
 
 
+def has_dates(da):
+    """
+    Returns True if the values are dates (of either type), or False if they are not.
+    """
+    if np.issubdtype(da.dtype, np.datetime64):
+        return True
+
+    return da.dtype == object and da.size > 0 and \
+        isinstance(np.atleast_1d(da.values).flat[0], cftime.datetime)
+
+
+def getTimeEncoding(da):
+    """
+    Returns the (units, calendar) in which to express the times in ``da``.
+    These are the ones that Xarray uses to write the same array to NetCDF.
+    """
+    # Use the units of the array itself, or of its time axis if it has none
+    encoding = da.encoding
+
+    if "units" not in encoding and "time" in da.coords:
+        encoding = da.time.encoding
+
+    if "units" not in encoding or "calendar" not in encoding:
+        inferred = xr.conventions.encode_cf_variable(xr.Variable(da.dims, da.values)).attrs
+        encoding = {**inferred, **encoding}
+
+    return encoding["units"], encoding["calendar"]
+
+
 def datetimes_to_nums(da):
     # Times without a date are numbers already
     if np.issubdtype(da.dtype, np.number):
         return da.data
 
-    # Use the units of the array itself, or of its time axis if it has none
-    encoding = da.encoding if 'units' in da.encoding else da.time.encoding
-    units = encoding['units']
-    calendar = encoding.get('calendar', 'standard')
-    arr = cftime.date2num(da.data, units, calendar=calendar)
-    return arr
+    units, calendar = getTimeEncoding(da)
+    dates = resolve_array(da.data)
+
+    if np.issubdtype(dates.dtype, np.datetime64):
+        dates = dates.astype("datetime64[us]").astype(object)
+
+    return cftime.date2num(dates, units, calendar=calendar)
 
 
 def get_interval(da, indx1, indx2, handle_datetimes=True):
-- 
2.43.0


From 28f8823d99f7a021581cd39fa39f545b01925fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 73/93] fix: date of in-memory arrays whose times are not
 decoded

---
 nappy/nc_interface/na_content_collector.py |  2 +-
 nappy/nc_interface/xarray_utils.py         | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index c58a889..9e1f127 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -790,7 +790,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if not "RDATE" in self.na_dict:
             self.na_dict["RDATE"] = time_now
 
-        if xarray_utils.is_time(self.ax0):
+        if xarray_utils.is_time(self.ax0) or " since " in str(self.ax0.attrs.get("units", "")):
             # Get first date in list
             try:
                 units, calendar = xarray_utils.getTimeEncoding(self.ax0)
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index e007747..189473e 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -356,17 +356,18 @@ def getTimeEncoding(da):
     Returns the (units, calendar) in which to express the times in ``da``.
     These are the ones that Xarray uses to write the same array to NetCDF.
     """
-    # Use the units of the array itself, or of its time axis if it has none
-    encoding = da.encoding
+    # Use the units of the array itself (which are attributes if the times are not
+    # decoded), or of its time axis if it has none
+    encoding = {**da.attrs, **da.encoding}
 
     if "units" not in encoding and "time" in da.coords:
-        encoding = da.time.encoding
+        encoding = {**da.time.attrs, **da.time.encoding}
 
-    if "units" not in encoding or "calendar" not in encoding:
+    if "units" not in encoding or (has_dates(da) and "calendar" not in encoding):
         inferred = xr.conventions.encode_cf_variable(xr.Variable(da.dims, da.values)).attrs
         encoding = {**inferred, **encoding}
 
-    return encoding["units"], encoding["calendar"]
+    return encoding["units"], encoding.get("calendar", "standard")
 
 
 def datetimes_to_nums(da):
-- 
2.43.0


From c9ae8d7c77c20addf1189c50970e24b595fa1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 74/93] fix: keep percent signs in annotations of FFI 1001
 header lines

---
 nappy/na_file/na_file_1001.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_1001.py b/nappy/na_file/na_file_1001.py
index d5892a4..59906fe 100644
--- a/nappy/na_file/na_file_1001.py
+++ b/nappy/na_file/na_file_1001.py
@@ -43,9 +43,9 @@ class NAFile1001(nappy.na_file.na_file.NAFile):
         """        
         self._writeCommonHeader()
         annotation = getAnnotation("DX", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s" * self.NIV + "\n") % tuple(self.DX))
+        self.header.write(annotation + ("%s" * self.NIV + "\n") % tuple(self.DX))
         annotation = getAnnotation("XNAME", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s\n") * self.NIV % tuple(self.XNAME))
+        self.header.write(annotation + "%s\n" * self.NIV % tuple(self.XNAME))
         self._writeVariablesHeaderSection()
         self._writeComments()
         self._fixHeaderLength()
-- 
2.43.0


From cb969ec34bc093eedc9eae5c963400da3a078a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 75/93] fix: give up a file whose content cannot be stored

---
 nappy/na_file/na_file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 2bf230e..b2e5b57 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -121,8 +121,16 @@ class NAFile(nappy.na_file.na_core.NACore):
         if not no_header:
             self.writeHeader()
 
-        self.writeData()
-        self.file.flush()
+        try:
+            self.writeData()
+            self.file.flush()
+        except OSError:
+            # What could not be stored must not reach the file later on
+            try:
+                self.close()
+            except OSError:
+                pass
+            raise
         
         # Set flag to make sure cannot try and write more data
         self.data_written = True
-- 
2.43.0


From 20ee0ea21f3c749992c3c49e07814ab51bfa7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 76/93] fix: name the default output of na2nc as the library
 does

---
 nappy/script/na2nc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 4299e90..bddf464 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -97,9 +97,7 @@ def parseArgs(args):
         exitNicely("Please provide argument '-i <na_file>'")
 
     if not a["nc_file"]:
-        fn = a["na_file"]
-        if fn[-3:] == ".na": fn = fn[:-3]
-        nc_file = fn + ".nc"
+        nc_file = nappy.getFileNameWithNewExtension(a["na_file"], "nc")
         print("Auto-generating output file name:", nc_file)
         a["nc_file"] = nc_file
 
-- 
2.43.0


From 18156a3bf110b4add80de766f5783c8d96cb385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 77/93] fix: refuse the -d option of nc2csv however it is run

---
 nappy/script/nc2csv.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ad4bb48..38f3f8e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -93,7 +93,7 @@ def parseArgs(args):
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
-            a["delimiter"] = value
+            exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
         elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
@@ -146,8 +146,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
-- 
2.43.0


From 4e96cc24fc9ea9866af8b6fdd86aea15f21f4adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 78/93] fix: exit status of the installed commands

---
 nappy/script/na2nc.py  | 8 ++++++--
 nappy/script/nc2csv.py | 8 ++++++--
 nappy/script/nc2na.py  | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index bddf464..1d4dbe3 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -109,12 +109,16 @@ def na2nc(args=None):
     Controller for conversion of NASA Ames file to NetCDF file.
     """
 
-    if args is None:
+    as_command = args is None
+
+    if as_command:
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
     nc_file = nappy.convertNAToNC(**arg_dict)
-    return nc_file
+    # A value returned to the installed command would be its exit status
+    if not as_command:
+        return nc_file
 
 
 if __name__ == "__main__":
diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index 38f3f8e..dcde3a4 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -120,7 +120,9 @@ def nc2csv(args=None):
     Controller for conversion of NetCDF file to NASA Ames files.
     """
 
-    if args is None:
+    as_command = args is None
+
+    if as_command:
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
@@ -142,7 +144,9 @@ def nc2csv(args=None):
         for naf in csv_files:
             print("    ", naf)
 
-    return csv_files
+    # A value returned to the installed command would be its exit status
+    if not as_command:
+        return csv_files
 
 if __name__ == "__main__":
     args = sys.argv[1:]
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index 9f2f6f4..23c120c 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -121,7 +121,9 @@ def nc2na(args=None):
     Controller for conversion of NetCDF file to NASA Ames files.
     """
 
-    if args is None:
+    as_command = args is None
+
+    if as_command:
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
@@ -138,7 +140,9 @@ def nc2na(args=None):
         for naf in na_files:
             print("    ", naf)
 
-    return na_files
+    # A value returned to the installed command would be its exit status
+    if not as_command:
+        return na_files
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d894959e10b40d52aba4183751d44a82eee996aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 79/93] fix: load the classes of all FFIs with the package, not
 in the first threads

---
 nappy/nappy_api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index fc3bee6..4648159 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -132,6 +132,12 @@ import nappy.utils.common_utils
 import nappy.utils.compare_na
 import nappy.utils.text_parser
 
+# Import the classes of all FFIs here: threads that open their first files at the
+# same time could otherwise find these modules only half set up
+for ffi in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010):
+    nappy.utils.common_utils.getNAFileClass(ffi)
+del ffi
+
 # Bring some utils into the API
 compareNA = nappy.utils.compare_na.compareNA
 readFFI = nappy.utils.common_utils.readFFI
-- 
2.43.0


From dfdcf1f0902b2e3a4a1d754e40c95b5cebb89728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 80/93] fix: strip annotations that contain a caret

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From 1ab3da068162faf9e5c0026c32f195667b908aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 81/93] fix: read missing values of character auxiliary
 variables that contain blanks

---
 nappy/na_file/na_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index b2e5b57..77f9376 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -282,7 +282,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
-- 
2.43.0


From 77e33a745fefc4276c800281be6f64357a96f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 82/93] fix: write character values as they are, without a
 delimiter

---
 nappy/na_file/na_file_2160.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 7b539a5..3ec110c 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -137,8 +137,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         for m in range(len(self.X)):
 
             # Write Independent variable mark and auxiliary variables
-            var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % self.X[m][0]))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
@@ -147,8 +146,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             for a in range(self.NAUXC):
-                var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % self.A[(self.NAUXV - self.NAUXC) + a][m]))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
-- 
2.43.0


From 1c4ce35fb045b654da2c11e9f93d65111f5d7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 83/93] fix: annotate only the lines of the file, not parts of
 texts with other separators

---
 nappy/utils/common_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 731eb3b..c7dee5d 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -212,7 +212,8 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    split_lines = lines.splitlines(1)
+    # Only a newline ends a line of the file, other separators (e.g. a form feed) do not
+    split_lines = StringIO(lines).readlines()
     output = ""
 
     count = 1
-- 
2.43.0


From 6c718b3e42a3ec4decd834be3b94ed3b7d9f47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 84/93] fix: intervals of axes of unsigned integers

---
 nappy/nc_interface/xarray_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 189473e..bb14d7d 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -392,6 +392,10 @@ def get_interval(da, indx1, indx2, handle_datetimes=True):
     else:
         arr = da.data
 
+    # Use plain integers, since unsigned (or short) ones wrap around
+    if isinstance(arr, np.ndarray) and arr.dtype.kind in "iu":
+        return int(arr[indx2]) - int(arr[indx1])
+
     return arr[indx2] - arr[indx1]
 
 
-- 
2.43.0


From 6ac2e18b8940dbfa8e1e17555506c399f4bdad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 85/93] fix: interval of uniform axes of single precision in
 FFI 2310

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 9e1f127..32cf341 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -432,7 +432,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_nx = []
                     new_dx = []
                     ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
-                    incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    # Take the mean interval, as single precision values vary around it
+                    incr = (ax2_values[-1] - ax2_values[0]) / max(len(ax2_values) - 1, 1)
 
                     for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
-- 
2.43.0


From 47f8376f0cda024b6e1c4974da185723a8b17522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 86/93] fix: mark missing values of times that have no date

---
 nappy/nc_interface/xarray_utils.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index bb14d7d..3c0ae69 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -409,22 +409,15 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
     """
     if is_time(da, test_by_values=True) and handle_datetimes:
         arr = datetimes_to_nums(da)
-
-    elif missing_value is not None:
-        arr = resolve_array(da.data)
-        found_nans = np.isnan(arr).any()
-
-        if found_nans:
-            # Use double precision so that the missing value is kept exactly
-            arr = np.where(np.isnan(arr), missing_value, arr.astype("float64"))
-        else:
-            arr = da.data
-
     else:
         arr = da.data
 
     arr = resolve_array(arr)
 
+    if missing_value is not None and np.isnan(arr).any():
+        # Use double precision so that the missing value is kept exactly
+        arr = np.where(np.isnan(arr), missing_value, arr.astype("float64"))
+
     return arr.tolist()
 
 
-- 
2.43.0


From d5611103e5786723420909c9cb8ba804eda0e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 87/93] fix: convert dates that are missing or have no
 dimensions

---
 nappy/nc_interface/nc_to_na.py     |  6 +++++-
 nappy/nc_interface/xarray_to_na.py |  4 ++++
 nappy/nc_interface/xarray_utils.py | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 364cb4a..553c4d0 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -67,7 +67,11 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
         """
         exclude_vars = exclude_vars or []
 
-        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        # Dates are only needed on the axes. Others are written as they are (and some can be missing)
+        with xr.open_dataset(self.nc_file, decode_times=False) as ds:
+            decode_times = {var_id: var_id in ds.dims for var_id in ds.variables}
+
+        ds = xr.open_dataset(self.nc_file, decode_times=decode_times, use_cftime=True, decode_timedelta=False)
         xr_variables = []
 
         # Make sure var_ids is a list
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 737121c..46bc886 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -141,6 +141,10 @@ class XarrayToNA:
         for variable in variables:
             var_obj = variable
 
+            # Dates are written as numbers (on the axes they are converted along with the axis)
+            if hasattr(var_obj, "dims") and var_obj.name not in var_obj.dims and xarray_utils.has_dates(var_obj):
+                var_obj = xarray_utils.datesToNumbers(var_obj)
+
             # If singleton variable then convert into proper Xarray variables so code doesn't break later
             if not hasattr(var_obj, "rank") or len(var_obj.shape) == 0:
               
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 3c0ae69..5553516 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -379,6 +379,14 @@ def datetimes_to_nums(da):
     dates = resolve_array(da.data)
 
     if np.issubdtype(dates.dtype, np.datetime64):
+        is_missing = np.isnat(dates)
+
+        if is_missing.any():
+            # Any date will do until they are replaced
+            known_dates = np.where(is_missing, np.datetime64("2000-01-01", "us"), dates.astype("datetime64[us]"))
+            nums = cftime.date2num(known_dates.astype(object), units, calendar=calendar)
+            return np.where(is_missing, np.nan, nums)
+
         dates = dates.astype("datetime64[us]").astype(object)
 
     return cftime.date2num(dates, units, calendar=calendar)
@@ -399,6 +407,15 @@ def get_interval(da, indx1, indx2, handle_datetimes=True):
     return arr[indx2] - arr[indx1]
 
 
+def datesToNumbers(da):
+    """
+    Returns a copy of ``da``, which holds dates, with numbers and their units instead
+    (and the attributes that it would have in a NetCDF file).
+    """
+    units, calendar = getTimeEncoding(da)
+    return da.copy(data=np.array(datetimes_to_nums(da))).assign_attrs(units=units, calendar=calendar)
+
+
 def getArrayAsList(da, missing_value=None, handle_datetimes=True):
     """
     Takes a DataArray ``da``.
-- 
2.43.0


From 1607a917a5c0dc5ef6ca8058f77314b0f0724f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:14 +0000
Subject: [PATCH 88/93] fix: compare directories of NASA Ames files like the
 files, and report what is found in one only

---
 nappy/utils/compare_na.py | 58 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 8c95c97..fc2663e 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -37,6 +37,7 @@ import os
 import sys
 import re
 import getopt
+import filecmp
 
 # Import local modules
 from nappy.utils.compare import *
@@ -65,11 +66,66 @@ def compareNA(i1, i2, **kwargs):
     if os.path.isfile(i1):
         return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
-        compDirs(i1, i2)
+        return compNADirs(i1, i2, **kwargs)
     else:
         exitNicely("Cannot recognise/find item '" + i1 + "'.")
 
 
+def compNADirs(d1, d2, **kwargs):
+    """
+    Compares directories by looping through and then calling compNAFiles()
+    for each pair of files found. Files that are not NASA Ames files are
+    compared as text.
+    Returns True if all items are the same, and in both directories.
+    **kwargs are forwarded as dictionary to compNAFiles().
+    """
+    # Ignore anything that is in exclusion list
+    for excl in dir_exclusions:
+        if excl.match(os.path.split(d1)[-1]):
+            print("IGNORING EXCLUDED Directory:", d1)
+            return
+
+    if not os.path.isdir(d2):
+        exitNicely("CANNOT compare directories as item does not exist:" + d2)
+
+    all_same = True
+
+    for item in sorted(set(os.listdir(d1) + os.listdir(d2))):
+        d1f = os.path.join(d1, item)
+        d2f = os.path.join(d2, item)
+        is_dir = os.path.isdir(d1f) or os.path.isdir(d2f)
+
+        if any(excl.match(item) for excl in (dir_exclusions if is_dir else file_exclusions)):
+            print("IGNORING EXCLUDED item:", d1f)
+            continue
+
+        found = os.path.isdir if is_dir else os.path.isfile
+
+        if not found(d1f) or not found(d2f):
+            print("WARNING: cannot find item:", d1f if found(d2f) else d2f)
+            same = False
+        elif is_dir:
+            same = compNADirs(d1f, d2f, **kwargs)
+        elif _isNAFile(d1f) and _isNAFile(d2f):
+            same = compNAFiles(d1f, d2f, **kwargs)
+        else:
+            compFiles(d1f, d2f)
+            same = filecmp.cmp(d1f, d2f, shallow=False)
+
+        if not same:
+            all_same = False
+
+    return all_same
+
+
+def _isNAFile(path):
+    """
+    Returns True if the first line of the file is that of a NASA Ames file.
+    """
+    with open(path, "rb") as fh:
+        return re.match(rb"\s*\d+\D+\d{4}\s*$", fh.readline()) is not None
+
+
 def compareSections(l1, l2, number_clever=True, approx_equal=False, 
                    delimiter_1=None, delimiter_2=None):
     """
-- 
2.43.0


From 810822f6198bec5084eaf22995e1685ad9351650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 89/93] fix: write flags (boolean values) as numbers with any
 float format

---
 nappy/nc_interface/xarray_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 5553516..a54bfbc 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -431,6 +431,10 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
 
     arr = resolve_array(arr)
 
+    # Flags are written as numbers, with any format
+    if arr.dtype == bool:
+        arr = arr.astype("int8")
+
     if missing_value is not None and np.isnan(arr).any():
         # Use double precision so that the missing value is kept exactly
         arr = np.where(np.isnan(arr), missing_value, arr.astype("float64"))
-- 
2.43.0


From 99c88714251187a036b48dbadd702dd27d4bd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:59 +0000
Subject: [PATCH 90/93] fix: axes whose units do not stand for dates can be
 converted to NASA Ames

---
 nappy/nc_interface/nc_to_na.py     |  4 +++-
 nappy/nc_interface/xarray_utils.py | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 553c4d0..d667c63 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -22,6 +22,7 @@ import numpy as np
 import nappy
 from nappy.utils.common_utils import fuzzy_contains, get_rank_zero_array_value
 import nappy.nc_interface.xarray_to_na
+from nappy.nc_interface import xarray_utils
 
 log = logging.getLogger(__name__)
 
@@ -69,7 +70,8 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
 
         # Dates are only needed on the axes. Others are written as they are (and some can be missing)
         with xr.open_dataset(self.nc_file, decode_times=False) as ds:
-            decode_times = {var_id: var_id in ds.dims for var_id in ds.variables}
+            decode_times = {var_id: var_id in ds.dims and xarray_utils.hasDatedUnits(ds[var_id])
+                            for var_id in ds.variables}
 
         ds = xr.open_dataset(self.nc_file, decode_times=decode_times, use_cftime=True, decode_timedelta=False)
         xr_variables = []
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index a54bfbc..56f0493 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -351,6 +351,20 @@ def has_dates(da):
         isinstance(np.atleast_1d(da.values).flat[0], cftime.datetime)
 
 
+def hasDatedUnits(da):
+    """
+    Returns True if the values are numbers that stand for dates (and not, for example,
+    "seconds since midnight").
+    """
+    try:
+        limits = [float(da.min()), float(da.max())]
+        cftime.num2date(limits, da.attrs["units"], calendar=da.attrs.get("calendar", "standard"))
+    except Exception:
+        return False
+
+    return True
+
+
 def getTimeEncoding(da):
     """
     Returns the (units, calendar) in which to express the times in ``da``.
-- 
2.43.0


From faa5e14efcefb7d629c014489601f653bff0d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:16 +0000
Subject: [PATCH 91/93] fix: attributes that are numbers (units, institution,
 comment) do not stop the conversion to NASA Ames

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 nappy/nc_interface/xarray_utils.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 32cf341..8318486 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -567,6 +567,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     
                 elif key == "institution":
                     # If fields came from NA then extract appropriate fields.
+                    value = str(value)
                     match = re.match(r"(.*)\s+\(ONAME from NASA Ames file\);\s+(.*)\s+\(ORG from NASA Ames file\)\.", 
                              value)
                     if match:
@@ -581,7 +582,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
-                    comment_lines = value.split("\n")
+                    comment_lines = str(value).split("\n")
                     normal_comments = []
                     normal_comm_flag = None
 
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 56f0493..505f6be 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -54,7 +54,8 @@ def getBestName(var):
     if not units and isinstance(var, xr.DataArray) and has_dates(var):
         units = getTimeEncoding(var)[0]
 
-    units = joinLines(units).strip()
+    # (they can be a number, as 1)
+    units = joinLines(str(units or "")).strip()
 
     # These are the units given to an axis without units when converting from NASA Ames
     if units == "Not known":
-- 
2.43.0


From 14e025859c88953daa9160f86a22dd86fe53fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:33 +0000
Subject: [PATCH 92/93] fix: accept marks whose number of values is missing in
 FFI 2160

---
 nappy/na_file/na_file_2160.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 3ec110c..49157aa 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -111,7 +111,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         # Get NX and Non-character AUX vars
         (aux, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, (self.NAUXV - self.NAUXC), float)
-        self.NX.append(int(aux[0]))
+        self._appendNX(aux[0])
 
         count = 0
         for a in range(self.NAUXV - self.NAUXC):
-- 
2.43.0


From de2ae040f732ad8d3d7990d8c35b1a56370a7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:14 +0000
Subject: [PATCH 93/93] fix: refuse numbers of lines, items or values that are
 negative or not whole

---
 nappy/na_file/na_file.py      | 4 ++++
 nappy/na_file/na_file_2110.py | 2 ++
 nappy/utils/text_parser.py    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 77f9376..53fa40f 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -158,11 +158,15 @@ class NAFile(nappy.na_file.na_core.NACore):
         Returns NLHEAD and FFI in a tuple.
         """
         (self.NLHEAD, self.FFI) = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 2, int)
+        if self.NLHEAD < 0:
+            raise Exception("Negative number of header lines (%s) in: %s" % (self.NLHEAD, self.filename))
         self.NIV = int(self.FFI/1000)
         return (self.NLHEAD, self.FFI)
 
     def _readLines(self, nlines):
         "Reads nlines lines from a file and returns them in a list."
+        if nlines < 0:
+            raise Exception("Negative number of lines (%s) in the header of: %s" % (nlines, self.filename))
         lines = []
         for i in range(nlines):
             line = self.file.readline()
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 4c2bbcf..a65fd30 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -77,6 +77,8 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         """
         if nx == self.AMISS[0]:
             nx = 0
+        elif nx < 0 or nx != int(nx):
+            raise Exception("The number of values is not a count: %s" % nx)
         self.NX.append(int(nx))
 
     def _readData1(self, datalines, ivar_count): 
diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index adf3aaf..ad64d22 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -67,6 +67,9 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     also returned.
     """
 
+    if nitems < 0:
+        raise Exception("Negative number of items: " + str(nitems))
+
     rtitems = []
     extras = []
     lines = []        
-- 
2.43.0

