From 9831db56a27043303b0fc63e20b99faed9246f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 01/33] fix: fail when a map plane or grid cannot be created or
 written

Failures to create or write a map plane or the grid were only logged.
marc exited with success, and later planes were written in the wrong place.
---
 src/MapCommand.cpp   |  3 ++-
 src/MapCommand_t.cpp | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..c9a8332 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -259,7 +259,8 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
               << " seconds.\n";
 
     if(!grid_image->template write<grid_type>(grid))
-        MaRC::error("Unable to write grid image to map file.");
+        throw std::runtime_error(
+            "Unable to write grid image to map file.");
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..03bb71e 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -21,6 +21,7 @@
 
 #include <marc/details/format.h>
 
+#include <stdexcept>
 #include <type_traits>
 
 #include <fitsio.h>
@@ -129,7 +130,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         std::unique_ptr<SourceImage> const image(i->make(sof));
 
         if (!image)
-            continue;  // Problem creating SourceImage.  Move on.
+            throw std::runtime_error(
+                fmt::format("Unable to create source image for plane {}.",
+                            plane_count));
 
         /**
          * @todo Move to @c MaRC::Progess::Console.
@@ -167,8 +170,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-            MaRC::error("Unable to write plane {} to map file.",
-                        plane_count);
+            throw std::runtime_error(
+                fmt::format("Unable to write plane {} to map file.",
+                            plane_count));
 
         ++plane_count;
     }
-- 
2.43.0


From cf79aea6bcdf0928fd5bc0581ca43c43d8907bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 02/33] fix: only write checksums of complete map images

The checksum was written when the image was destroyed, including when an
error occurred before all of the image was written, and failures to
write it were ignored.
---
 src/FITS_image.cpp   |  5 +++--
 src/FITS_image.h     | 14 +++++++++++++-
 src/MapCommand.cpp   |  2 ++
 src/MapCommand_t.cpp |  2 ++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 05eb055..95e08da 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -90,14 +90,15 @@ MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
     MaRC::FITS::throw_on_error(status);
 }
 
-MaRC::FITS::image::~image()
+void
+MaRC::FITS::image::complete()
 {
     int status = 0;
 
     // Write a checksum for the image.
     fits_write_chksum(this->fptr_.get(), &status);
 
-    fits_report_error(stderr, status);  // Do not throw in destructor!
+    MaRC::FITS::throw_on_error(status);
 }
 
 void
diff --git a/src/FITS_image.h b/src/FITS_image.h
index a0ecc7d..f3af5d7 100644
--- a/src/FITS_image.h
+++ b/src/FITS_image.h
@@ -68,7 +68,19 @@ namespace MaRC
             image & operator=(image const &) = delete;
 
             /// Destructor.
-            ~image();
+            ~image() = default;
+
+            /**
+             * @brief Complete the image.
+             *
+             * Write the checksum of the image once all of it has been
+             * written.  Images that were not completed, such as when
+             * an error occurred, have no checksum.
+             *
+             * @throw std::runtime_error Error writing checksum to
+             *                           %FITS file.
+             */
+            void complete();
 
             /**
              * @name Standard %FITS Keyword Accessors
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index c9a8332..5f71f63 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -261,6 +261,8 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
     if(!grid_image->template write<grid_type>(grid))
         throw std::runtime_error(
             "Unable to write grid image to map file.");
+
+    grid_image->complete();
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index 03bb71e..7262605 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -186,6 +186,8 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         map_image->template datamin<T>(*info.minimum());
         map_image->template datamax<T>(*info.maximum());
     }
+
+    map_image->complete();
 }
 
 
-- 
2.43.0


From 08ce4e4b9639fea081dab488b0f397b140330c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 03/33] fix: detect failures to close a map file

CFITSIO writes most of a map when it is closed.  Errors that occurred then,
such as a full disk, were ignored, and the map was reported as created.
---
 src/FITS_file.cpp  | 11 +++++++++++
 src/FITS_file.h    | 26 ++++++++++++++++++++++----
 src/MapCommand.cpp |  3 +++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..b1b4128 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -339,6 +339,17 @@ MaRC::FITS::output_file::make_image(int bitpix,
                                                extname);
 }
 
+void
+MaRC::FITS::output_file::close()
+{
+    int status = 0;
+
+    std::get_deleter<closer>(this->fptr_)->status = &status;
+    this->fptr_.reset();
+
+    throw_on_error(status);
+}
+
 
 // ----------------------------------------------------------------
 
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..b8e6bf7 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -69,12 +69,17 @@ namespace MaRC
                  */
                 void operator()(fitsfile * fptr) const
                 {
-                    int status = 0;
-                    fits_close_file(fptr, &status);
+                    int s = 0;
+                    fits_close_file(fptr, &s);
 
-                    // At this point we don't really care about the
-                    // status.  Don't bother checking it.
+                    // The status is only of interest to those that
+                    // asked for it, e.g. output_file::close().
+                    if (this->status != nullptr)
+                        *this->status = s;
                 }
+
+                /// Where to store the CFITSIO file close status.
+                int * status = nullptr;
             };
 
             /**
@@ -300,6 +305,19 @@ namespace MaRC
                 size_t planes,
                 char const * extname = nullptr);
 
+            /**
+             * @brief Close the %FITS file.
+             *
+             * Flush all pending data to the %FITS file, and close it.
+             * All images created by this @c output_file must have
+             * been destroyed, and no other operation may be performed
+             * on this object once this method has been called.
+             *
+             * @throw std::runtime_error Error writing or closing the
+             *                           %FITS file.
+             */
+            void close();
+
         };
 
         // -------------------------------------------------------
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 5f71f63..78a4574 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -183,6 +183,9 @@ MaRC::MapCommand::execute()
     // Write the map grid if requested.
     this->write_grid(f);
 
+    // The map only exists once all of it made it to the file.
+    f.close();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
-- 
2.43.0


From f1e10da42caec029fc78d9a86af2957b0b884e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 04/33] fix: verify map files once they are written

CFITSIO ignores errors that occur when C stream buffers are flushed.
---
 src/FITS_file.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index b1b4128..c7f96ae 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -13,6 +13,7 @@
 
 #include <marc/Log.h>
 
+#include <cstring>
 #include <limits>
 #include <type_traits>
 #include <stdexcept>
@@ -63,6 +64,40 @@ namespace MaRC
             return f;
         }
 
+        /**
+         * @brief Verify that a %FITS file was completely written.
+         *
+         * @param[in] filename Name of %FITS file to be verified.
+         * @param[in] hdus     Number of HDUs written to the file.
+         *
+         * @throw std::runtime_error %FITS file is incomplete.
+         */
+        void
+        verify_fits_file(char const * filename, int hdus)
+        {
+            fitsfile * fptr = nullptr;
+            int status = 0;
+
+            fits_open_diskfile(&fptr, filename, READONLY, &status);
+            FITS::throw_on_error(status);
+
+            FITS::file::shared_ptr const f(fptr, FITS::file::closer());
+
+            for (int i = 1; i <= hdus; ++i) {
+                int dataok = 0;
+                int hduok  = 0;
+
+                fits_movabs_hdu(fptr, i, nullptr, &status);
+                fits_verify_chksum(fptr, &dataok, &hduok, &status);
+                FITS::throw_on_error(status);
+
+                if (dataok != 1 || hduok != 1)
+                    throw std::runtime_error(
+                        std::string("FITS file \"") + filename
+                        + "\" was not completely written");
+            }
+        }
+
         /**
          * @brief Get the value for the given %FITS keyword.
          *
@@ -343,11 +378,23 @@ void
 MaRC::FITS::output_file::close()
 {
     int status = 0;
+    int hdus = 0;
+    char name[FLEN_FILENAME] = { 0 };
+    char url_type[FLEN_FILENAME] = { 0 };
+
+    fits_get_num_hdus(this->fptr_.get(), &hdus, &status);
+    fits_file_name(this->fptr_.get(), name, &status);
+    fits_url_type(this->fptr_.get(), url_type, &status);
+    throw_on_error(status);
 
     std::get_deleter<closer>(this->fptr_)->status = &status;
     this->fptr_.reset();
-
     throw_on_error(status);
+
+    // CFITSIO does not report all write errors, e.g. those that occur
+    // when C stream buffers are flushed.  Read the file back.
+    if (std::strcmp(url_type, "file://") == 0)
+        verify_fits_file(name, hdus);
 }
 
 
-- 
2.43.0


From d7ea323d39a043ad8bec84e8f9c22672e8f50ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 05/33] fix: check result of source image checksum verification

Incorrect checksums were never reported since CFITSIO does not consider
them an error, and read errors that occurred at that point went unnoticed,
leaving garbage in the CFITSIO buffers.
---
 src/FITS_file.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index c7f96ae..0bbcbc1 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -408,20 +408,23 @@ MaRC::FITS::input_file::input_file(char const * filename)
     int hduok  = 0;
     int status = 0;
 
+    // The file could not be read if this fails.  An incorrect checksum
+    // is not considered to be a failure by CFITSIO.
     if (fits_verify_chksum(this->fptr_.get(),
                            &dataok,
                            &hduok,
-                           &status) != 0) {
-        if (dataok == -1)  // Incorrect data checksum
-            MaRC::warn("Data checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-
-        if (hduok == -1)
-            MaRC::warn("Header checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-    }
+                           &status) != 0)
+        throw_on_error(status);
+
+    if (dataok == -1)  // Incorrect data checksum
+        MaRC::warn("Data checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
+
+    if (hduok == -1)
+        MaRC::warn("Header checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
 }
 
 void
-- 
2.43.0


From ed358ec81cc91d8a74e69522d86de84a5d6c02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 06/33] fix: allow 1x1 maps to be written

---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From 3497addc5967698b4cdfe4594fe13745c40837a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 07/33] fix: do not write through a map file that could not be
 replaced

---
 src/MapCommand.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 78a4574..fc2006c 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -28,6 +28,7 @@
 #include <type_traits>  // For sanity check below.
 #include <chrono>
 #include <cassert>
+#include <cerrno>
 
 #include <unistd.h>
 
@@ -137,7 +138,13 @@ MaRC::MapCommand::execute()
     if (!populate_map_parameters())
         return -1;
 
-    (void) unlink(this->filename_.c_str());
+    // Never write through what could not be replaced, e.g. a link.
+    if (unlink(this->filename_.c_str()) != 0 && errno != ENOENT) {
+        MaRC::error("Unable to replace existing map file '{}'",
+                    this->filename_);
+
+        return -1;
+    }
 
     // Create the map file.
     FITS::output_file f(this->filename_.c_str());
-- 
2.43.0


From dca7f6a52dc336c1f4b241fc97f6c9c8495ef080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:32 +0000
Subject: [PATCH 08/33] fix: detect memory exhaustion in the scanner

The result of strdup() was not checked, leading to a null pointer
dereference.
---
 src/lexer.ll | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..c9f9fd8 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -19,6 +19,8 @@
 #include "parse.hh"
 
 #include <cstdlib>
+#include <cstring>
+#include <new>
 
 #ifdef __GNUG__
 # pragma GCC diagnostic ignored "-Wunused-function"
@@ -37,6 +39,20 @@ void yyset_column(int, yyscan_t);
 # endif
 #endif
 
+namespace
+{
+    /// Duplicate scanned text, and throw if no memory is available.
+    char * duplicate_text(char const * text)
+    {
+        char * const s = strdup(text);
+
+        if (s == nullptr)
+            throw std::bad_alloc();
+
+        return s;
+    }
+}
+
 #define YY_USER_ACTION {                                                \
     auto const loc    = yyget_lloc(yyscanner);                          \
                                                                         \
@@ -74,14 +90,14 @@ void yyset_column(int, yyscan_t);
                         }
 <comment>[^\n]*         {
     BEGIN(INITIAL);
-    yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
+    yyget_lval(yyscanner)->sval = duplicate_text(yyget_text(yyscanner));
     return _STRING;
     /* Comments must end with a carriage return */
                         }
 <keyword_token>[:]      { BEGIN(INITIAL); return ':'; }
 <string>{
         [:]             return ':';
-        [[:graph:]]+    BEGIN(INITIAL); yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner)); return _STRING;
+        [[:graph:]]+    BEGIN(INITIAL); yyget_lval(yyscanner)->sval = duplicate_text(yyget_text(yyscanner)); return _STRING;
 }
 <pole>{
         [:]             return ':';
@@ -117,7 +133,7 @@ void yyset_column(int, yyscan_t);
         "CCW"                           { return CCW; }
         [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
             // String to number conversion occurs in the parser.
-            yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
+            yyget_lval(yyscanner)->sval = duplicate_text(yyget_text(yyscanner));
 
             return NUM;
         }
-- 
2.43.0


From b05afd5d2a10f364ee49d57d160c3bd5957638c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 09/33] fix: measure mapping times with a steady clock

std::chrono::high_resolution_clock is the system clock with libstdc++, so
that reported times were wrong, and possibly negative, if the system
clock was set while mapping.
---
 src/MapCommand.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index fc2006c..83dc4dc 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -152,7 +152,7 @@ MaRC::MapCommand::execute()
     /**
      * @todo Map timing should not include %FITS file operations.
      */
-    auto const start =  std::chrono::high_resolution_clock::now();
+    auto const start =  std::chrono::steady_clock::now();
 
     // Create and write the map planes.
     switch (this->parameters_->bitpix()) {
@@ -180,7 +180,7 @@ MaRC::MapCommand::execute()
         return -1;
     }
 
-    auto const end =  std::chrono::high_resolution_clock::now();
+    auto const end =  std::chrono::steady_clock::now();
 
     std::chrono::duration<double> const seconds = end - start;
 
@@ -254,14 +254,14 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
     int grid_blank = 0;
     grid_image->blank<decltype(grid_blank)>(grid_blank);
 
-    auto const start = std::chrono::high_resolution_clock::now();
+    auto const start = std::chrono::steady_clock::now();
 
     grid_type grid(this->make_grid(this->samples_,
                                    this->lines_,
                                    this->lat_interval_,
                                    this->lon_interval_));
 
-    auto const end =  std::chrono::high_resolution_clock::now();
+    auto const end =  std::chrono::steady_clock::now();
 
     std::chrono::duration<double> const seconds = end - start;
 
-- 
2.43.0


From ab4775e898661f21ff68b0319473636e1dd35c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:15 +0000
Subject: [PATCH 10/33] fix: create remaining maps when one of them cannot be
 created

An exception thrown while creating one map ended the program, so that
maps requested after it were never created.
---
 src/marc.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/marc.cpp b/src/marc.cpp
index 79ed1b9..5fae119 100644
--- a/src/marc.cpp
+++ b/src/marc.cpp
@@ -223,7 +223,16 @@ int main(int argc, char *argv[])
             parse_parameter.commands();
 
         for (auto & p : commands) {
-            if (p->execute() != 0) {
+            bool created = false;
+
+            try {
+                created = (p->execute() == 0);
+            } catch (std::exception const & e) {
+                // Do not let one map prevent creation of the others.
+                MaRC::error("{}", e.what());
+            }
+
+            if (!created) {
                 MaRC::error("problem during creation of map '{}'",
                             p->filename());
                 result = 1;
-- 
2.43.0


From eba082ff31e5e8936b414cad4447b9c94e1fa6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:15 +0000
Subject: [PATCH 11/33] fix: keep default grid interval missing from
 configuration file

The interval that was not set in the configuration file was reset to
zero, causing an endless loop in a map grid that relied on it.
---
 src/parse.yy | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 5255004..f4e7658 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -543,8 +543,11 @@ user_file_parse:
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
-          pp.lat_interval = lat_interval;
-          pp.lon_interval = lon_interval;
+          if (lat_interval > 0)
+              pp.lat_interval = lat_interval;
+
+          if (lon_interval > 0)
+              pp.lon_interval = lon_interval;
 
           if (!minimum)
               pp.minimum = minimum;
-- 
2.43.0


From 14cf1d94205e96d4b0c4efb7dde68466786bc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:15 +0000
Subject: [PATCH 12/33] fix: honor data range in configuration file

The conditions were reversed, so that DATA_MIN and DATA_MAX in the
configuration file were ignored.
---
 src/parse.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index f4e7658..710a143 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -549,10 +549,10 @@ user_file_parse:
           if (lon_interval > 0)
               pp.lon_interval = lon_interval;
 
-          if (!minimum)
+          if (minimum)
               pp.minimum = minimum;
 
-          if (!maximum)
+          if (maximum)
               pp.maximum = maximum;
         }
 ;
-- 
2.43.0


From ba0b05849aa02f112af46738d5fbf496489c28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:15 +0000
Subject: [PATCH 13/33] fix: do not carry latitude type of a plane over to
 later ones

The latitude type of a LATITUDE plane was also applied to later planes
and Simple Cylindrical maps that left it unspecified.
---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 710a143..6dcd41a 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1380,6 +1380,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset option
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From b46d7431b26bac9a211a5710cc71f203e548b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:08 +0000
Subject: [PATCH 14/33] fix: ignore invalid data of other images when mosaicing

The datum left behind by an image without valid data at a given location
either replaced the valid datum of another image, or made a later image
appear to have no data there.
---
 lib/marc/PhotoImage.cpp         | 7 +++----
 lib/marc/unweighted_average.cpp | 8 ++++++--
 lib/marc/weighted_average.cpp   | 8 ++++++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..d83a9a3 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -134,8 +134,7 @@ MaRC::PhotoImage::read_data(double lat,
      *
      * @todo Verify that this "nibbling" works as described.
      *
-     * Consider NaN data points invalid, i.e. "off the body".
-     * No need to continue beyond this point.
+     * No need to continue beyond this point if "off the body".
      *
      * @todo Check for a user-specified "blank" value as
      *       well.
@@ -144,10 +143,10 @@ MaRC::PhotoImage::read_data(double lat,
         || i >= this->right_
         || k <  this->top_
         || k >= this->bottom_
-        || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || (!this->body_mask_.empty() && !this->body_mask_[index]))
         return false;
 
+    // NaN data points are considered invalid below.
     data = this->image_[index];
 
     if (!config->interpolation_strategy()->interpolate(
diff --git a/lib/marc/unweighted_average.cpp b/lib/marc/unweighted_average.cpp
index 3bb43a6..dd1ee32 100644
--- a/lib/marc/unweighted_average.cpp
+++ b/lib/marc/unweighted_average.cpp
@@ -45,8 +45,12 @@ MaRC::unweighted_average::composite(list_type const & images,
     int count = 0;
 
     for (auto const & i : images) {
-        if (i->read_data(lat, lon, data)) {
-            sum += data;
+        // Only valid if successfully read.
+        double datum = 0;
+
+        if (i->read_data(lat, lon, datum)) {
+            data = datum;
+            sum += datum;
             ++count;
         }
     }
diff --git a/lib/marc/weighted_average.cpp b/lib/marc/weighted_average.cpp
index eea5ecf..5502e5c 100644
--- a/lib/marc/weighted_average.cpp
+++ b/lib/marc/weighted_average.cpp
@@ -33,8 +33,12 @@ MaRC::weighted_average::composite(list_type const & images,
         // Scan for data weight.
         static constexpr bool scan = true;
 
-        if (i->read_data(lat, lon, data, weight, scan)) {
-            weighted_data_sum += weight * data;
+        // Only valid if successfully read.
+        double datum = 0;
+
+        if (i->read_data(lat, lon, datum, weight, scan)) {
+            data = datum;
+            weighted_data_sum += weight * datum;
             weight_sum += weight;
             ++count;
         }
-- 
2.43.0


From cc162bebc747f99c874b404deffc96c7fe2a491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:02 +0000
Subject: [PATCH 15/33] fix: average data without weight when mosaicing

Where all data had a weight of zero, the datum of whichever image came
last was stored rather than an average.
---
 lib/marc/weighted_average.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/marc/weighted_average.cpp b/lib/marc/weighted_average.cpp
index 5502e5c..f1158bd 100644
--- a/lib/marc/weighted_average.cpp
+++ b/lib/marc/weighted_average.cpp
@@ -23,6 +23,9 @@ MaRC::weighted_average::composite(list_type const & images,
 
     long double weight_sum = 0;
 
+    // Unweighted sum, should all weights be zero.
+    long double sum = 0;
+
     // Datum count.
     int count = 0;
 
@@ -40,6 +43,7 @@ MaRC::weighted_average::composite(list_type const & images,
             data = datum;
             weighted_data_sum += weight * datum;
             weight_sum += weight;
+            sum += datum;
             ++count;
         }
     }
@@ -50,8 +54,10 @@ MaRC::weighted_average::composite(list_type const & images,
       a datum of 200 for one image vs. 199.999999999996 obtained from
       the weighted average calculation.
     */
-    if (count > 1 && weight_sum > 0)
-        data = static_cast<double>(weighted_data_sum / weight_sum);
+    if (count > 1)
+        data = static_cast<double>(weight_sum > 0
+                                   ? weighted_data_sum / weight_sum
+                                   : sum / count);
 
     return count;
 }
-- 
2.43.0


From e2ad85d2f2a3f7d67d8882edfe435e8603ca7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:40 +0000
Subject: [PATCH 16/33] fix: restart progress after mapping that failed

Progress made while creating a map plane that failed was carried over to
the next one, which exceeded the map size in turn.
---
 lib/marc/MapFactory_t.cpp |  3 +++
 lib/marc/Notifier.cpp     | 13 +++++++++++++
 lib/marc/Notifier.h       |  8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/lib/marc/MapFactory_t.cpp b/lib/marc/MapFactory_t.cpp
index f2aa400..1fec2a9 100644
--- a/lib/marc/MapFactory_t.cpp
+++ b/lib/marc/MapFactory_t.cpp
@@ -58,6 +58,9 @@ MaRC::MapFactory::make_map(SourceImage const & image,
     // Set up physical data value extrema.
     map_type<T> map(info.samples() * info.lines(), blank);
 
+    // Discard progress of mapping that was not completed, if any.
+    info.notifier().reset();
+
     // Begin mapping.
     parameters<T> p(image, minmax, info, map);
 
diff --git a/lib/marc/Notifier.cpp b/lib/marc/Notifier.cpp
index c05eb6d..40233a7 100644
--- a/lib/marc/Notifier.cpp
+++ b/lib/marc/Notifier.cpp
@@ -69,3 +69,16 @@ MaRC::Progress::Notifier::notify_done(std::size_t map_size)
 
     this->plot_count_ = 0;
 }
+
+void
+MaRC::Progress::Notifier::reset()
+{
+    this->plot_count_ = 0;
+
+    /**
+     * @todo Access to the observers container should be synchronized
+     *       once parallelized mapping is supported.
+     */
+    for (auto const & o : this->observers_)
+        o->reset();
+}
diff --git a/lib/marc/Notifier.h b/lib/marc/Notifier.h
index 2c65b55..53adb6f 100644
--- a/lib/marc/Notifier.h
+++ b/lib/marc/Notifier.h
@@ -91,6 +91,14 @@ namespace MaRC
              */
             void notify_done(std::size_t map_size);
 
+            /**
+             * @brief Reset progress to the initial (zero) state.
+             *
+             * Discard progress left over from mapping that was not
+             * completed, e.g. due to an exception.
+             */
+            void reset();
+
         private:
 
             /**
-- 
2.43.0


From b84e76b30d863c4f87d93e0ef01b184d9c1dc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 17/33] fix: allow for rounding in cosines of angles on the
 body

Mapping the emission, incidence or phase angle where its cosine is one
ended the program if the computed cosine exceeded one by a rounding error.
---
 lib/marc/CosPhaseImage.cpp | 4 ++++
 lib/marc/Mu0Image.cpp      | 4 ++++
 lib/marc/MuImage.cpp       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 843149f..e6bffda 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -51,6 +52,9 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
+    // Cosines may slightly exceed their range due to rounding.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index a20e060..1cc0994 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -42,6 +43,9 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
+    // Cosines may slightly exceed their range due to rounding.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 9d327ad..610c6ff 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -45,6 +46,9 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
+    // Cosines may slightly exceed their range due to rounding.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
-- 
2.43.0


From b95d23cb59ea69b972e743bac6f8010b772c2b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:07 +0000
Subject: [PATCH 18/33] fix: do not overflow the maximum of 64 bit integer maps

---
 lib/marc/Map_traits.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..66755bf 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -105,8 +105,12 @@ namespace MaRC
         {
             constexpr double type_max = std::numeric_limits<T>::max();
 
-            // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            // Return the smaller of the two maximums.  Note that the
+            // type maximum may not be exactly representable as a
+            // double, e.g. the 64 bit integer maximum.
+            return m < type_max
+                ? static_cast<T>(m)
+                : std::numeric_limits<T>::max();
         }
     };
 
-- 
2.43.0


From 7fed52034f1a37350b435c241f4e92dad1620294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:07 +0000
Subject: [PATCH 19/33] fix: intersect orthographic lines of sight with the
 body

---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From eee06eb1f406755ce1991182eb5a4a6c0a8fe3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:23 +0000
Subject: [PATCH 20/33] fix: read source images of more than two dimensions

---
 src/FITS_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 0bbcbc1..ff75d37 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -485,8 +485,11 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
      * First pixel to be read.
      *
      * @attention First pixel in CFITSIO is {1, 1} not {0, 0}.
+     *
+     * @note CFITSIO expects one element for each image dimension,
+     *       including those beyond the first two.
      */
-    LONGLONG fpixel[] = {1, 1};
+    std::vector<LONGLONG> fpixel(naxis, 1);
 
     // For integer typed FITS images with a BLANK value, set the
     // "blank" value in our floating point converted copy of the image
@@ -499,7 +502,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
 
     if (fits_read_pixll(this->fptr_.get(),
                         traits<value_type>::datatype,
-                        fpixel,
+                        fpixel.data(),
                         nelements,
                         &nulval,  // "Blank" value in our image.
                         tmp.data(),
-- 
2.43.0


From 8ab1b02951a0d7e6e351ac44e87fdf84f89b6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:37 +0000
Subject: [PATCH 21/33] fix: draw the visible latitude lines of retrograde
 bodies

---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index c7af384..696d60d 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -486,7 +486,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 if (this->body_->prograde())
                     mm = this->sub_observ_lon_ + C::pi - mm;
                 else
-                    mm -= C::pi - this->sub_observ_lon_;
+                    mm -= C::pi + this->sub_observ_lon_;
 
                 DVector const coord = p.body2obs() * DVector(
                      radius * std::cos(nn) * std::sin(mm),
-- 
2.43.0


From 0dc33fbb3bdc28b0964c74546e220541c4373124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:37 +0000
Subject: [PATCH 22/33] fix: draw polar stereographic longitude lines on one
 side of the pole only

---
 lib/marc/PolarStereographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index ed1cd60..3bec39d 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -295,7 +295,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
         for (std::size_t n = 0; n < imax; ++n) {
             double const nn =
-                static_cast<double>(n) / imax * C::degree * 360;
+                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
 
             /**
              * @bug Shouldn't we take into account the maximum
-- 
2.43.0


From 67b423abf9210cb6a30f6d1381709b5bd5bebed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:37 +0000
Subject: [PATCH 23/33] fix: draw longitude lines beyond 360 degrees

---
 lib/marc/SimpleCylindrical.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 2a230d8..c6d4705 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -186,6 +186,8 @@ MaRC::SimpleCylindrical::plot_grid(std::size_t samples,
 
         if (m - lo_lon > 360)
             lo_lon_2 += 360;
+        else if (m < lo_lon)
+            lo_lon_2 -= 360;
 
         decltype(samples) i = std::round((m - lo_lon_2) * sr);
 
-- 
2.43.0


From 80552b56fe0bad1235c4d0d0397475d0906bd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 24/33] fix: record the scale of 64 bit integer planes

---
 src/MapCommand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 83dc4dc..460845a 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -52,8 +52,8 @@ namespace
             fits_width < double_width ? fits_width : double_width;
 
         // Avoid writing "-0".  It's harmless but rather unsightly.
-        constexpr int epsilons = 1;
-        if (MaRC::almost_zero(value, epsilons))
+        // Keep tiny values, such as scales of 64 bit integer data.
+        if (value == 0)
             value = 0;
 
         // Work around inability to change precision in
-- 
2.43.0


From 7c1b1cdc12731d04ecea98b9f526b4ff3903816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:52 +0000
Subject: [PATCH 25/33] fix: determine the body center from the latitude and
 longitude at the optical axis

REMOVE_SKY compares elements with the body center, which was left
unset when LAT_AT_CENTER and LON_AT_CENTER were given.
---
 lib/marc/ViewingGeometry.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..224f155 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -348,7 +348,19 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
 
         // Set perpendicular distance from observer to image plane in
         // case focal length and scale are not set or used.
-        this->normal_range_ = -(this->body2observ_ * this->range_b_)[1];
+        DVector const range_O(this->body2observ_ * this->range_b_);
+        this->normal_range_ = -range_O[1];
+
+        if (std::isnan(this->km_per_pixel_))
+            this->km_per_pixel_ =
+                this->normal_range_ / this->focal_length_pixels_;
+
+        // Body center corresponding to the latitude and longitude at
+        // the optical axis.
+        this->sample_center_ =
+            this->OA_s_ - range_O[0] / this->km_per_pixel_;
+        this->line_center_ =
+            this->OA_l_ + range_O[2] / this->km_per_pixel_;
     }
 
     if (std::isnan(this->focal_length_pixels_)) {
-- 
2.43.0


From 579fe1adba8bd43dd0cf0c8da39900f7294aedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:42 +0000
Subject: [PATCH 26/33] fix: draw the polar stereographic grid at the scale of
 the map

The grid scale was one element short of the one used by the map,
shifting grid lines by more than an element where one dimension of the
map is much larger than the other.
---
 lib/marc/PolarStereographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index 3bec39d..4f9f998 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -248,7 +248,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
-    double const min_dim = std::min(samples - 1, lines - 1);
+    auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
     static constexpr auto white =
-- 
2.43.0


From b43ed8898d8f8f15b7ff103d6118b9fbdeff2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:25 +0000
Subject: [PATCH 27/33] fix: place images with LAT/LON_AT_CENTER off the
 sub-observer meridian

The rotation about the polar axis was derived from the range vector,
which lies in the plane of the sub-observer meridian, so that the line
of sight to the point at the optical axis was never turned toward it in
longitude, and two candidates half a turn apart were told apart only by
rounding.  Derive it from the optical axis itself.
---
 lib/marc/ViewingGeometry.cpp | 91 ++++++++----------------------------
 lib/marc/ViewingGeometry.h   |  9 ++--
 2 files changed, 23 insertions(+), 77 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 224f155..827fbb2 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -341,10 +341,9 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
         // Optical axis in body coordinates
         DVector const OpticalAxis(OA_prime - r_OA);
 
-        this->rot_matrices(this->range_b_,
-                           OpticalAxis,
-                           this->observ2body_,
-                           this->body2observ_);
+        this->optical_axis_rot_matrices(OpticalAxis,
+                                        this->observ2body_,
+                                        this->body2observ_);
 
         // Set perpendicular distance from observer to image plane in
         // case focal length and scale are not set or used.
@@ -506,10 +505,9 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
-                                    DVector const & OA,
-                                    DMatrix & observ2body,
-                                    DMatrix & body2observ)
+MaRC::ViewingGeometry::optical_axis_rot_matrices(DVector const & OA,
+                                                 DMatrix & observ2body,
+                                                 DMatrix & body2observ)
 {
     // Unit vector representing North pole in body coordinates.
     constexpr DVector body_north(0, 0, 1);
@@ -522,33 +520,19 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     // magnitudes since they're both unit vectors (magnitudes of 1).
     double const dotProd = MaRC::dot_product(body_north, UnitOpticalAxis);
 
-    double SubLatMod[2];
+    // Angle between equatorial plane and OA.
+    double const SubLatMod = std::asin(-dotProd);
 
-    /**
-     * @todo Shouldn't this be @c (C::pi_2 @c - @c std::acos(dotProd)) ?
-     */
-    /*
-      Given cos(x):
-          asin(cos(x)) = x + pi/2
-          asin(-cos(x)) = -(x + pi/2)
-          x = pi/2 - asin(-cos(x))
-     */
-    // Try first possibility
-    SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
-                                         // plane and OA.
-
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
-
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
+    // Angle about the North pole axis between the optical axis and
+    // the plane containing the observer and the North pole.
+    double const Ztwist =
+        std::atan2(UnitOpticalAxis[0], UnitOpticalAxis[1]);
 
     // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
-                * (Geometry::RotXMatrix(SubLatMod[0])
-                   * Geometry::RotYMatrix(-this->position_angle_)));
-
-    observ2body = o2b;
+    observ2body =
+        Geometry::RotZMatrix(Ztwist)
+        * (Geometry::RotXMatrix(SubLatMod)
+           * Geometry::RotYMatrix(-this->position_angle_));
 
     // OA_O is the optical axis vector in observer coordinates.
     DVector const OA_O(0,
@@ -558,43 +542,8 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                        OA.magnitude(),
                        0);
 
-    double diff_magnitude = (OA - o2b * OA_O).magnitude();
-
-    /**
-     * @todo This seems like a hack.  Why do we need to check a second
-     *       value?  There should only be one value with this approach
-     *       since.
-     */
-    // Try second possibility
-    SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
-
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
-
-    // Observer to body transformation
-    o2b =
-        Geometry::RotZMatrix(Ztwist2)
-        * (Geometry::RotXMatrix(SubLatMod[1])
-           * Geometry::RotYMatrix(-this->position_angle_));
-
-#ifndef NDEBUG
-    double Ztwist, SubLatModified;
-#endif  /* !NDEBUG */
-
-    double const diffmag = (OA - o2b * OA_O).magnitude();
-    if (diff_magnitude > diffmag) {
-        diff_magnitude = diffmag;
-        observ2body = o2b;
-
-#ifndef NDEBUG
-        SubLatModified = SubLatMod[1];
-        Ztwist = Ztwist2;
-    } else {
-        SubLatModified = SubLatMod[0];
-        Ztwist = Ztwist1;
-#endif  /* !NDEBUG */
-    }
+    double const diff_magnitude =
+        (OA - observ2body * OA_O).magnitude();
 
     double const percent_diff =
         diff_magnitude / OA_O.magnitude() * 100;
@@ -637,10 +586,10 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                  "Observer");
 
     MaRC::debug("position_angle_ = {} degrees (positive is CCW)\n"
-                "SubLatModified = {}\n"
+                "SubLatMod = {}\n"
                 "Ztwist = {}\n",
                 position_angle_ / C::degree,
-                SubLatModified / C::degree,
+                SubLatMod / C::degree,
                 Ztwist / C::degree);
 
     // North pole vector in camera (observer) coordinates.
diff --git a/lib/marc/ViewingGeometry.h b/lib/marc/ViewingGeometry.h
index da5646e..cade57a 100644
--- a/lib/marc/ViewingGeometry.h
+++ b/lib/marc/ViewingGeometry.h
@@ -360,8 +360,6 @@ namespace MaRC
         /// Get rotation matrices for case when lat/lon at optical axis
         /// were given.
         /**
-         * @param[in]  range_b     The range vector in body
-         *                         coordinates.
          * @param[in]  OA          The optical axis vector in body
          *                         coordinates.
          * @param[out] observ2body Observer to body coordinates
@@ -369,10 +367,9 @@ namespace MaRC
          * @param[out] body2observ Body to observer coordinates
          *                         transformation matrix.
          */
-        void rot_matrices(DVector const & range_b,
-                          DVector const & OA,
-                          DMatrix & observ2body,
-                          DMatrix & body2observ);
+        void optical_axis_rot_matrices(DVector const & OA,
+                                       DMatrix & observ2body,
+                                       DMatrix & body2observ);
 
     private:
 
-- 
2.43.0


From 7e15b53d042f44b8893b3ca5786a890129263101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:10 +0000
Subject: [PATCH 28/33] fix: weight mosaic data by the distance from removed
 sky

Weights of images with sky removal were determined by searching for
pixels on the body instead of those that are not, and measured from the
far end of the search, so that all of them were zero.
---
 lib/marc/PhotoImage.cpp | 98 +++++++++++++++++------------------------
 lib/marc/PhotoImage.h   | 36 +++++++--------
 2 files changed, 57 insertions(+), 77 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index d83a9a3..3a81799 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -169,58 +169,57 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t i,
+                               std::size_t k,
                                double & weight) const
 {
-    // Scan across samples on given line.
+    auto const line  = std::cbegin(this->body_mask_) + k * this->samples_;
+    auto const pixel = line + i;
 
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
-
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
+    // Scan toward the right for the closest pixel that is not on the
+    // body, i.e. across the half-open interval [i, right).
+    auto const right = line + this->right_;
+    auto const r     = std::find(pixel, right, false);
 
     // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    if (r != right)
+        weight = std::min(static_cast<double>(r - pixel), weight);
+
+    // Scan toward the left, i.e. across the half-open interval [left,
+    // i) in reverse order.
+    auto const begin = std::make_reverse_iterator(pixel);
+    auto const left  = std::make_reverse_iterator(line + this->left_);
+    auto const l     = std::find(begin, left, false);
 
+    if (l != left)
+        weight = std::min(static_cast<double>(l - begin + 1), weight);
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t k,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Line numbers increase from top to bottom.
+
+    // Scan toward the bottom for the closest pixel that is not on the
+    // body, i.e. across the half-open interval [k, bottom).
+    for (auto line = k; line < this->bottom_; ++line) {
+        if (!this->body_mask_[line * this->samples_ + i]) {
+            // The weight is the shortest distance.
+            weight = std::min(static_cast<double>(line - k), weight);
+            break;
+        }
+    }
+
+    // Scan toward the top, i.e. across the half-open interval [top,
+    // k) in reverse order.
+    for (auto line = k; line > this->top_; --line) {
+        if (!this->body_mask_[(line - 1) * this->samples_ + i]) {
+            weight = std::min(static_cast<double>(k - line + 1), weight);
+            break;
+        }
+    }
 }
 
 void
@@ -260,21 +259,6 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
-
-    // Line numbers increase from top to bottom.
-
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    this->scan_samples(i, k, weight);
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..c882d85 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,31 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples to both sides of the given pixel for the
+         * distance to the closest pixel that is not on the body.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight, reduced to that distance
+         *                       if it is shorter.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t i,
+                          std::size_t k,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines above and below the given pixel for the distance
+         * to the closest pixel that is not on the body.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight, reduced to that distance
+         *                       if it is shorter.
          */
-        void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+        void scan_lines(std::size_t i,
+                        std::size_t k,
                         double & weight) const;
 
         /**
-- 
2.43.0


From ed7037d1f9b3fce1b5bf5e504e60408d85876350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:18 +0000
Subject: [PATCH 29/33] fix: accept configuration files without grid intervals

All entries of the user configuration file are documented to be optional.
---
 src/parse.yy | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 6dcd41a..a048cb0 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -539,7 +539,7 @@ map:    map_parse
 ;
 
 user_file_parse:
-        grid_intervals plane_data_range nibbling {
+        user_file {
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
@@ -557,6 +557,12 @@ user_file_parse:
         }
 ;
 
+user_file:
+        grid_intervals plane_data_range nibbling
+        | data_range nibbling
+        | nibble_entries
+;
+
 map_parse:
         map_setup
         | map_setup map_parse
@@ -1026,7 +1032,11 @@ plane_size:
 
 plane_data_range:
         %empty
-        | DATA_MIN ':' expr { minimum = $3; }
+        | data_range
+;
+
+data_range:
+        DATA_MIN ':' expr { minimum = $3; }
         | DATA_MAX ':' expr { maximum = $3; }
         | DATA_MIN ':' expr
           DATA_MAX ':' expr {
@@ -1182,7 +1192,11 @@ image_initialize:
 
 nibbling:
         %empty
-        | nibble
+        | nibble_entries
+;
+
+nibble_entries:
+        nibble
         | nibble_samples
         | nibble_lines
         | nibble_samples nibble_lines
-- 
2.43.0


From 19cba28ae6823781b4370e7a4712826ce7c69259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 30/33] fix: bisect when the derivative cannot be used for root
 finding

A numerical derivative of zero at a point already found to be the root
turned the next estimate into NaN, so that e.g. some Mercator maps could
not be created.
---
 lib/marc/root_find.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..3b8c880 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -234,9 +234,10 @@ MaRC::root_find(double y,
     for (int i = 0; i < max_iterations; ++i) {
         double const df = first_derivative(x0, f);
 
-        // Bisect if Newtown-Raphson is out of range or not
-        // decreasing fast enough.
-        if (((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
+        // Bisect if Newtown-Raphson is not possible, out of range or
+        // not decreasing fast enough.
+        if (df == 0 || !std::isfinite(df)
+            || ((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
             || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
             dxold = dx;
             dx = (xh - xl) / 2;
-- 
2.43.0


From f878134863e3e844c21fc6dd184c85f8154b0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:19 +0000
Subject: [PATCH 31/33] fix: verify compressed maps when they are closed

---
 src/FITS_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index ff75d37..6c9c384 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -393,7 +393,8 @@ MaRC::FITS::output_file::close()
 
     // CFITSIO does not report all write errors, e.g. those that occur
     // when C stream buffers are flushed.  Read the file back.
-    if (std::strcmp(url_type, "file://") == 0)
+    if (std::strcmp(url_type, "file://") == 0
+        || std::strcmp(url_type, "compressoutfile://") == 0)
         verify_fits_file(name, hdus);
 }
 
-- 
2.43.0


From c92539455a763197ce2b75318b6be36ca4935331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:19 +0000
Subject: [PATCH 32/33] fix: open the flat field when the request is read

---
 src/PhotoImageFactory.cpp |  9 ++++-----
 src/PhotoImageFactory.h   | 10 +++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/PhotoImageFactory.cpp b/src/PhotoImageFactory.cpp
index 9921532..56fdb45 100644
--- a/src/PhotoImageFactory.cpp
+++ b/src/PhotoImageFactory.cpp
@@ -152,7 +152,8 @@ MaRC::PhotoImageFactory::make(scale_offset_functor /* calc_so */)
 void
 MaRC::PhotoImageFactory::flat_field(char const * name)
 {
-    this->flat_field_ = name;
+    // Do not start mapping if the flat field cannot be opened.
+    this->flat_field_ = std::make_unique<FITS::input_file>(name);
 }
 
 void
@@ -193,20 +194,18 @@ MaRC::PhotoImageFactory::flat_field_correct(std::vector<double> & img,
                                             std::size_t samples,
                                             std::size_t lines) const
 {
-    if (this->flat_field_.empty())
+    if (!this->flat_field_)
         return;
 
     std::vector<double> f_img;
 
     {
-        FITS::input_file f(this->flat_field_.c_str());
-
         // Verify flat field image is same size as source photo
         // image.
         std::size_t f_samples = 0;
         std::size_t f_lines   = 0;
 
-        f.read(f_img, f_samples, f_lines);
+        this->flat_field_->read(f_img, f_samples, f_lines);
 
         if (f_samples != samples || f_lines != lines) {
             auto s =
diff --git a/src/PhotoImageFactory.h b/src/PhotoImageFactory.h
index 2a0e7f6..27bcb43 100644
--- a/src/PhotoImageFactory.h
+++ b/src/PhotoImageFactory.h
@@ -19,7 +19,7 @@
 #include "marc/ViewingGeometry.h"
 
 #include <vector>
-#include <string>
+#include <memory>
 #include <cstddef>
 
 
@@ -68,7 +68,7 @@ namespace MaRC
         std::unique_ptr<SourceImage> make(
             scale_offset_functor calc_so) override;
 
-        /// Set the flat field image filename.
+        /// Open the flat field image with the given filename.
         void flat_field(char const * name);
 
         /// Enable the geometric correction strategy during
@@ -114,9 +114,9 @@ namespace MaRC
         /// %FITS file containing photo/image data.
         FITS::input_file const file_;
 
-        /// Name of flat field image to be substracted from the
-        /// photo/image containing the actual data.
-        std::string flat_field_;
+        /// %FITS file containing the flat field image to be substracted
+        /// from the photo/image containing the actual data, if any.
+        std::unique_ptr<FITS::input_file const> flat_field_;
 
         /// Enable/disable geometric correction.
         /**
-- 
2.43.0


From 5a66d0eb0ebe5793b6984978600fdc742bffb899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:16 +0000
Subject: [PATCH 33/33] fix: notice data lost when CFITSIO moves it

---
 src/FITS_image.cpp   | 21 +++++++++++++++++++++
 src/FITS_image.h     | 23 ++++++++++++++++++++++-
 src/FITS_image_t.cpp | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 95e08da..e7d08c8 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -11,7 +11,9 @@
 #include "FITS_image.h"
 
 #include <cmath>
+#include <cstdint>
 #include <cstring>
+#include <stdexcept>
 
 
 MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
@@ -98,7 +100,26 @@ MaRC::FITS::image::complete()
     // Write a checksum for the image.
     fits_write_chksum(this->fptr_.get(), &status);
 
+    // CFITSIO does not report all errors that occur when data is moved
+    // to make room for keywords.  Compare the checksum of the data in
+    // the file to the one of the data that was written.
+    double datasum = 0;
+    fits_read_key(this->fptr_.get(),
+                  TDOUBLE,
+                  "DATASUM",
+                  &datasum,
+                  nullptr,  // comment
+                  &status);
+
     MaRC::FITS::throw_on_error(status);
+
+    // Ones' complement arithmetic, i.e. modulo 2^32 - 1.
+    constexpr std::uint64_t modulus = 0xffffffff;
+
+    if (static_cast<std::uint64_t>(datasum) % modulus
+        != this->sum_ % modulus)
+        throw std::runtime_error("Data in FITS image is not the data "
+                                 "that was written.");
 }
 
 void
diff --git a/src/FITS_image.h b/src/FITS_image.h
index f3af5d7..71a3041 100644
--- a/src/FITS_image.h
+++ b/src/FITS_image.h
@@ -16,6 +16,8 @@
 
 #include <fitsio.h>
 
+#include <cstdint>
+
 namespace MaRC
 {
     namespace FITS
@@ -78,7 +80,9 @@ namespace MaRC
              * an error occurred, have no checksum.
              *
              * @throw std::runtime_error Error writing checksum to
-             *                           %FITS file.
+             *                           %FITS file, or the image in
+             *                           the file is not the one that
+             *                           was written.
              */
             void complete();
 
@@ -295,6 +299,20 @@ namespace MaRC
                             char const * value,
                             char const * comment);
 
+        private:
+
+            /**
+             * @brief Add data to the checksum of the image.
+             *
+             * @param[in] data Elements written to the next plane.
+             * @param[in] n    Number of elements in @a data.
+             *
+             * @see %FITS Standard, section 4.4.2.7 (@c DATASUM).
+             */
+            template <typename T>
+            void
+            add_to_sum(T const * data, LONGLONG n);
+
         private:
 
             /// Underlying CFITSIO @c fitsfile object.
@@ -313,6 +331,9 @@ namespace MaRC
             /// Maximum number of elements in the %FITS image.
             LONGLONG const max_elements_;
 
+            /// Ones' complement sum of the data written so far.
+            std::uint64_t sum_ = 0;
+
         };
 
     }  // FITS
diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index 36e9a37..1a2e2fd 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -20,6 +20,9 @@
 
 #include <array>  // For std::size().
 #include <cmath>
+#include <cstdint>
+#include <cstring>
+#include <type_traits>
 
 
 template <typename T>
@@ -143,11 +146,43 @@ MaRC::FITS::image::write(T const & img)
         return false;
     }
 
+    this->add_to_sum(data, this->nelements_);
+
     // Set offset in the FITS array to the next plane.
     this->fpixel_ += this->nelements_;
 
     return true;
 }
 
+template <typename T>
+void
+MaRC::FITS::image::add_to_sum(T const * data, LONGLONG n)
+{
+    using bits_type =
+        std::conditional_t<
+            sizeof(T) == 1, std::uint8_t,
+            std::conditional_t<
+                sizeof(T) == 2, std::uint16_t,
+                std::conditional_t<
+                    sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;
+
+    static_assert(sizeof(T) == sizeof(bits_type));
+
+    auto const begin = (this->fpixel_ - 1) * sizeof(T);
+
+    for (LONGLONG i = 0; i < n; ++i) {
+        bits_type bits;
+        std::memcpy(&bits, data + i, sizeof(T));
+
+        // FITS data are big endian, and summed up as 32 bit integers.
+        for (std::size_t b = 0; b < sizeof(T); ++b) {
+            std::uint64_t const byte =
+                (bits >> 8 * (sizeof(T) - 1 - b)) & 0xff;
+
+            this->sum_ += byte << 8 * (3 - (begin + i * sizeof(T) + b) % 4);
+        }
+    }
+}
+
 
 #endif  /* MARC_FITS_IMAGE_T_CPP */
-- 
2.43.0

