From 1b37885a8405718af74091ac046900a597d91aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 01/63] fix: Image::at(range) rejects an index list of the
 wrong dimensionality

---
 image.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.h b/image.h
index 43bee97..5948af4 100644
--- a/image.h
+++ b/image.h
@@ -235,6 +235,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput) const
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             // Iterate using ranges to universally support both continuous (std::vector) and discrete (std::list) ranges
             for (const auto& idx : indexInput)
@@ -254,6 +258,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput)
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             for (const auto& idx : indexInput)
             {
-- 
2.43.0


From 58eaa999a177c5992d7851d7103c135675211ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 02/63] fix: count() of a default-constructed Image is zero

---
 image.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image.h b/image.h
index 5948af4..82f500c 100644
--- a/image.h
+++ b/image.h
@@ -373,6 +373,7 @@ namespace TinyDIP
 
         constexpr std::size_t count() const noexcept
         {
+            if (std::ranges::empty(size)) return 0;
             return std::reduce(std::ranges::cbegin(size), std::ranges::cend(size), std::size_t{ 1 }, std::multiplies());
         }
 
-- 
2.43.0


From 83f02b6c5e2ce505328ce254408c661682c6863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 03/63] fix: Image constructor rejects rows of unequal length

---
 image.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.h b/image.h
index 82f500c..a3289b0 100644
--- a/image.h
+++ b/image.h
@@ -207,6 +207,10 @@ namespace TinyDIP
             size.emplace_back(std::ranges::size(input));
             for (auto& rows : input)
             {
+                if (std::ranges::size(rows) != size[0])
+                {
+                    throw std::runtime_error("Image data input and the given size are mismatched!");
+                }
                 image_data.insert(std::ranges::end(image_data), std::ranges::begin(rows), std::ranges::end(rows));    //  flatten
             }
             return;
-- 
2.43.0


From ede36e862f84f5095008e53fea4bc18f8468acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/63] fix: Image::set refuses a location with a negative
 coordinate

---
 image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image.h b/image.h
index a3289b0..b684513 100644
--- a/image.h
+++ b/image.h
@@ -902,7 +902,7 @@ namespace TinyDIP
             std::size_t parameter_pack_index = 0;
             auto function = [&](auto index) 
             {
-                if (std::cmp_greater_equal(index, size[parameter_pack_index]))
+                if (std::cmp_less(index, 0) || std::cmp_greater_equal(index, size[parameter_pack_index]))
                 {
                     return false;
                 }
-- 
2.43.0


From b3ea525a4e158ea26812b3187e07298bd48c0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:23 +0000
Subject: [PATCH 05/63] fix: bmp_file_read closes the file it opened to test
 for existence

---
 image_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image_io.cpp b/image_io.cpp
index 4da6d62..16dfb9f 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -205,6 +205,7 @@ namespace TinyDIP
             throw std::runtime_error("Fail to read BMP file!");
             return output;
         }             
+        fclose(fp);
         output.FILENAME = fname_bmp;
         int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
         int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-- 
2.43.0


From 3171507d0b5e143fe047c2f14a51e70d1abf762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:23 +0000
Subject: [PATCH 06/63] fix: reading a top-down BMP no longer stops at a shell
 prompt for every byte and pixel

---
 image_io.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 16dfb9f..bc3a3e5 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -242,12 +242,6 @@ namespace TinyDIP
                 OriginImageData[i] = 255;
             }
             bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
-            for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
-            {
-                printf("%d\n", OriginImageData[loop]);
-                auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                (void)returnValue;
-            }
             for(int y = 0; y < output.YSIZE; y++)
             {
                 for(int x = 0; x < output.XSIZE; x++)
@@ -256,12 +250,6 @@ namespace TinyDIP
                         output.IMAGE_DATA[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
                             OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
                     }
-                    printf("Pixel (%d, %d): %d, %d, %d\n", x, y, 
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
-                    auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                    (void)returnValue;
                 }
             }
             free(OriginImageData);
-- 
2.43.0


From 81bdd04d7cf9460ea3af7e1ca93d5ab284c6f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 07/63] fix: bmp_read_x_size and bmp_read_y_size fail on a file
 without a complete header

---
 image_io.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index bc3a3e5..054fc57 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -43,7 +43,11 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output;
         output = header[18] + 
             ((unsigned long)header[19] << 8) +
@@ -74,7 +78,11 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output; 
         output= header[22] + 
             ((unsigned long)header[23] << 8) +
-- 
2.43.0


From 23512e365fbf3c883c89ab9e705e02402e3b6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 08/63] fix: bmp_file_read rejects header sizes its buffers
 cannot hold

---
 image_io.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 054fc57..d1b6e74 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -1,5 +1,6 @@
 /* Developed by Jimmy Hu */
 
+#include <limits>
 #include <string.h>
 #include "image_io.h"
 
@@ -215,13 +216,20 @@ namespace TinyDIP
         }             
         fclose(fp);
         output.FILENAME = fname_bmp;
-        int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
-        int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-        if( (OriginSizeX == -1) || (OriginSizeY == -1) )
+        const unsigned long HeaderSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
+        const unsigned long HeaderSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
+        if( (HeaderSizeX == static_cast<unsigned long>(-1)) || (HeaderSizeY == static_cast<unsigned long>(-1)) )
         {     
             std::cerr << "Fail to fetch information of image!";
             return output;
         }
+        int OriginSizeX = static_cast<int>(HeaderSizeX);
+        int OriginSizeY = static_cast<int>(HeaderSizeY);
+        //  The buffer size computations below are performed with 32-bit integers
+        if( (OriginSizeX < 0) || ((OriginSizeX * 3ULL + 3) * std::max(std::abs(static_cast<long long>(OriginSizeY)), 1LL) > std::numeric_limits<int>::max()) )
+        {
+            throw std::runtime_error("Invalid BMP image size!");
+        }
         //  Deal with the negative height
         if (OriginSizeY < 0)
         {
@@ -236,6 +244,8 @@ namespace TinyDIP
             if (output.IMAGE_DATA == NULL)
             { 
                 std::cerr << "Memory allocation error!";
+                output.XSIZE = 0;
+                output.YSIZE = 0;
                 return output;
             }
             unsigned char *OriginImageData;
@@ -274,6 +284,8 @@ namespace TinyDIP
         if (output.IMAGE_DATA == NULL)
         { 
             std::cerr << "Memory allocation error!";
+            output.XSIZE = 0;
+            output.YSIZE = 0;
             return output;
         }     
         for(int i = 0; i < ((output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE);i++)
-- 
2.43.0


From e8afb475195382eadfec340c4ab5fd9dc0f3fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 09/63] fix: the BMP header's file size counts the row padding

---
 image_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_io.cpp b/image_io.cpp
index d1b6e74..030ffc6 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -336,7 +336,7 @@ namespace TinyDIP
         0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
         0, 0, 0, 0                        
         };                                
-        unsigned long file_size = (long)xsize * (long)ysize * 3 + 54;
+        unsigned long file_size = ((long)xsize * 3 + FillingByte) * (long)ysize + 54;
         unsigned long width, height;
         std::filesystem::path fname_bmp;
         header[2] = (unsigned char)(file_size &0x000000ff);
-- 
2.43.0


From 8a06cff60d3a239284468e498ce033d6a3239935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 10/63] fix: the BMP, dbmp and hsv writers report an incomplete
 write

---
 image_io.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 030ffc6..1dd4650 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -361,10 +361,11 @@ namespace TinyDIP
         {    
             return -1;
         }        
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(unsigned char), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
-        return 0;
+        const std::size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        bool success = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+        success = (fwrite(image, sizeof(unsigned char), image_size, fp) == image_size) && success;
+        success = (fclose(fp) == 0) && success;
+        return success ? 0 : -1;
     }
 
     unsigned char *array_to_raw_image(Image<RGB> input)
@@ -469,10 +470,11 @@ namespace TinyDIP
             {
                 return -1;
             }
-            fwrite(header, sizeof(unsigned char), 54, fp);
-            fwrite(image, sizeof(double), (size_t)(long)(xsize + FillingByte) * ysize, fp);
-            fclose(fp);
-            return 0;
+            const std::size_t image_size = (size_t)(long)(xsize + FillingByte) * ysize;
+            bool success = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+            success = (fwrite(image, sizeof(double), image_size, fp) == image_size) && success;
+            success = (fclose(fp) == 0) && success;
+            return success ? 0 : -1;
         }
 
         int write(const char* filename, Image<double> input)
@@ -597,10 +599,11 @@ namespace TinyDIP
         {
             return -1;
         }
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(double), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
-        return 0;
+        const std::size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        bool success = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+        success = (fwrite(image, sizeof(double), image_size, fp) == image_size) && success;
+        success = (fclose(fp) == 0) && success;
+        return success ? 0 : -1;
     }
 
     int hsv_write(const char* const filename, Image<HSV> input)
-- 
2.43.0


From decfb797ca7c4e9d8d481c8667e9683f12d8bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 11/63] fix: dbmp and hsv readers survive damaged headers and
 truncated pixel data, and close their file

---
 image_io.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 1dd4650..96a15ab 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -508,9 +508,10 @@ namespace TinyDIP
             }
             int OriginSizeX = bmp_read_x_size(target_path.string().c_str(), true);
             int OriginSizeY = bmp_read_y_size(target_path.string().c_str(), true);
-            if ((OriginSizeX == -1) || (OriginSizeY == -1))
+            if ((OriginSizeX < 0) || (OriginSizeY < 0) || ((OriginSizeX + 8LL) * std::max(OriginSizeY, 1) > std::numeric_limits<int>::max()))
             {
                 std::cerr << "Fail to fetch information of image!";
+                fclose(fp);
                 return TinyDIP::Image<double>(0, 0);
             }
             printf("Width of the input image: %d\n", OriginSizeX);
@@ -521,7 +522,13 @@ namespace TinyDIP
             (void)returnValue;
             double* image;
             unsigned char FillingByte = bmp_filling_byte_calc(OriginSizeX, 8);
-            image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX + FillingByte) * OriginSizeY));
+            image = static_cast<double*>(calloc((size_t)(OriginSizeX + FillingByte) * OriginSizeY, sizeof * image));
+            if (image == NULL)
+            {
+                std::cerr << "Memory allocation error!";
+                fclose(fp);
+                return TinyDIP::Image<double>(0, 0);
+            }
             returnValue = fread(image, sizeof(double), (size_t)(double)(OriginSizeX + FillingByte) * OriginSizeY, fp);
             TinyDIP::Image<double> output(OriginSizeX, OriginSizeY);
             for (int y = 0; y < OriginSizeY; y++)
@@ -637,9 +644,10 @@ namespace TinyDIP
         }
         int OriginSizeX = bmp_read_x_size(target_path.string().c_str(), true);
         int OriginSizeY = bmp_read_y_size(target_path.string().c_str(), true);
-        if ((OriginSizeX == -1) || (OriginSizeY == -1))
+        if ((OriginSizeX < 0) || (OriginSizeY < 0) || ((OriginSizeX * 3ULL + 8) * std::max(OriginSizeY, 1) > std::numeric_limits<int>::max()))
         {
             std::cerr << "Fail to fetch information of image!";
+            fclose(fp);
             return Image<HSV>(0, 0);
         }
         printf("Width of the input image: %d\n", OriginSizeX);
@@ -650,7 +658,13 @@ namespace TinyDIP
         (void)returnValue;
         double* image;
         unsigned char filling_bytes = bmp_filling_byte_calc(OriginSizeX, 8);
-        image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX * 3 + filling_bytes) * OriginSizeY));
+        image = static_cast<double*>(calloc((size_t)(OriginSizeX * 3 + filling_bytes) * OriginSizeY, sizeof * image));
+        if (image == NULL)
+        {
+            std::cerr << "Memory allocation error!";
+            fclose(fp);
+            return Image<HSV>(0, 0);
+        }
         returnValue = fread(image, sizeof(double), (size_t)(long)(OriginSizeX * 3 + filling_bytes) * OriginSizeY, fp);
         fclose(fp);
         auto output = Image<HSV>(OriginSizeX, OriginSizeY);
-- 
2.43.0


From 82a99f03993b6e46c335d43357725635074cb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 12/63] fix: dbmp and hsv files no longer contain uninitialised
 memory in their row padding

---
 image_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 96a15ab..d3dd2f1 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -417,7 +417,7 @@ namespace TinyDIP
             unsigned char FillingByte;
             FillingByte = bmp_filling_byte_calc(xsize, 8);
             double* output;
-            output = static_cast<double*>(malloc(sizeof * output * (xsize + FillingByte) * ysize));
+            output = static_cast<double*>(calloc((xsize + FillingByte) * ysize, sizeof * output));
             if (output == NULL)
             {
                 std::cerr << "Memory allocation error!";
@@ -551,7 +551,7 @@ namespace TinyDIP
             unsigned char FillingByte;
             FillingByte = bmp_filling_byte_calc(xsize, 8);
             double* output;
-            output = static_cast<double*>(malloc(sizeof * output * (xsize * 3 + FillingByte) * ysize));
+            output = static_cast<double*>(calloc((xsize * 3 + FillingByte) * ysize, sizeof * output));
             if (output == NULL)
             {
                 std::cerr << "Memory allocation error!";
-- 
2.43.0


From 9f694fcdf8859bc3041d55c039193e0ab1ea06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:37 +0000
Subject: [PATCH 13/63] fix: a malformed CSV cell raises an exception instead
 of terminating the program

---
 image_io.h | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/image_io.h b/image_io.h
index c3f0a0d..e31d95b 100644
--- a/image_io.h
+++ b/image_io.h
@@ -242,8 +242,30 @@ namespace TinyDIP
 
             ParseCSVRow<ElementT> parser{ lines, output, width };
 
+            // An exception must not leave the parallel algorithm: keep it and rethrow it to the caller
+            std::vector<std::exception_ptr> errors(height);
+
             // Process row strings into double values in parallel
-            std::for_each(std::forward<ExecutionPolicy>(policy), std::ranges::begin(indices), std::ranges::end(indices), parser);
+            std::for_each(std::forward<ExecutionPolicy>(policy), std::ranges::begin(indices), std::ranges::end(indices),
+                [&](const std::size_t y)
+                {
+                    try
+                    {
+                        parser(y);
+                    }
+                    catch (...)
+                    {
+                        errors[y] = std::current_exception();
+                    }
+                });
+
+            for (const auto& error : errors)
+            {
+                if (error)
+                {
+                    std::rethrow_exception(error);
+                }
+            }
 
             return output;
         }
@@ -290,10 +312,28 @@ namespace TinyDIP
             TinyDIP::Image<ElementT> output(width, height);
             ParseCSVRow<ElementT> parser{ lines, output, width };
 
+            // An exception must not leave the parallel region: keep it and rethrow it to the caller
+            std::vector<std::exception_ptr> errors(height);
+
             #pragma omp parallel for
             for (std::ptrdiff_t y = 0; y < static_cast<std::ptrdiff_t>(height); ++y)
             {
-                parser(static_cast<std::size_t>(y));
+                try
+                {
+                    parser(static_cast<std::size_t>(y));
+                }
+                catch (...)
+                {
+                    errors[static_cast<std::size_t>(y)] = std::current_exception();
+                }
+            }
+
+            for (const auto& error : errors)
+            {
+                if (error)
+                {
+                    std::rethrow_exception(error);
+                }
             }
 
             return output;
-- 
2.43.0


From 2dab2e9228d38e2502f18dc85bd9b87dc19607fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:37 +0000
Subject: [PATCH 14/63] fix: the CSV and PNM writers report an incomplete write

---
 image_io.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/image_io.h b/image_io.h
index e31d95b..b11eccc 100644
--- a/image_io.h
+++ b/image_io.h
@@ -99,6 +99,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the file completely!\n");
+            }
         }
 
         // -------------------------------------------------------------------------
@@ -150,6 +155,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the file completely!\n");
+            }
         }
 
         //  write_to_csv template function implementation
@@ -636,6 +646,11 @@ namespace TinyDIP
                     }
                 }
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the file completely: " + file_path.string());
+            }
         }
     }
 
-- 
2.43.0


From bdc4c08af8724e6a5daffd7a4ddf19764e97edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:37 +0000
Subject: [PATCH 15/63] fix: the PNM reader rejects sizes that overflow and
 invalid maximum values

---
 image_io.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/image_io.h b/image_io.h
index b11eccc..e96c5bd 100644
--- a/image_io.h
+++ b/image_io.h
@@ -495,6 +495,15 @@ namespace TinyDIP
                 max_value = std::stoi(read_pnm_token(file));
             }
 
+            if (max_value < 1 || max_value > 65535)
+            {
+                throw std::runtime_error("Invalid PNM maximum value.");
+            }
+            if (height != 0 && width > std::numeric_limits<std::size_t>::max() / 3 / height)
+            {
+                throw std::runtime_error("Invalid PNM image size.");
+            }
+
             const int in_bits = static_cast<int>(std::log2(max_value + 1));
             const int shift_bit = outbits - in_bits;
 
@@ -552,6 +561,15 @@ namespace TinyDIP
                 max_value = std::stoi(read_pnm_token(file));
             }
 
+            if (max_value < 1 || max_value > 65535)
+            {
+                throw std::runtime_error("Invalid PNM maximum value.");
+            }
+            if (height != 0 && width > std::numeric_limits<std::size_t>::max() / 3 / height)
+            {
+                throw std::runtime_error("Invalid PNM image size.");
+            }
+
             const int in_bits = static_cast<int>(std::log2(max_value + 1));
             const int shift_bit = outbits - in_bits;
 
-- 
2.43.0


From 4855ac6b316eaef40333d6cb2282e44a6de1dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 16/63] fix: convolution with is_size_same returns the central
 part of the convolution, not the input

---
 image_operations.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4f4a4b2..6763659 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -722,11 +722,17 @@ namespace TinyDIP
         impl::convolution_detail(std::forward<ExecutionPolicy>(execution_policy), image, kernel, output, image.getSize().size() - 1);
         if (is_size_same)
         {
+            std::vector<std::size_t> centers;
+            std::ranges::transform(
+                output_size,
+                std::back_inserter(centers),
+                [](auto&& element) { return element / 2; }
+            );
             output = subimage(
                 std::forward<ExecutionPolicy>(execution_policy),
-                image,
+                output,
                 image.getSize(),
-                get_center_location(std::forward<ExecutionPolicy>(execution_policy), image)
+                centers
                 );
         }
         return output;
-- 
2.43.0


From f257267633d452dec73e348a33d0346cd4dfbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 17/63] fix: subimage2 rejects an inclusive end equal to the
 image width or height

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 6763659..732b251 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1922,13 +1922,13 @@ namespace TinyDIP
         {
             throw std::runtime_error(Formatter() << "error: starty > endy starty = " << starty << ", endy = " << endy << '\n');
         }
-        if ((startx > input.getWidth()) || (endx > input.getWidth()))
+        if ((startx >= input.getWidth()) || (endx >= input.getWidth()))
         {
-            throw std::runtime_error(Formatter() << "error: (startx or endx) > image width\n");
+            throw std::runtime_error(Formatter() << "error: (startx or endx) >= image width\n");
         }
-        if ((starty > input.getHeight()) || (endy > input.getHeight()))
+        if ((starty >= input.getHeight()) || (endy >= input.getHeight()))
         {
-            throw std::runtime_error(Formatter() << "error: (starty or endy) > image height\n");
+            throw std::runtime_error(Formatter() << "error: (starty or endy) >= image height\n");
         }
         Image<ElementT> output(endx - startx + 1, endy - starty + 1);
         const auto width = output.getWidth();
-- 
2.43.0


From 1f7f28de3ef163432d28cda4a0bf3778462e03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 18/63] fix: split_overlap centres every block on the block of
 split

---
 image_operations.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 732b251..4182237 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2032,8 +2032,9 @@ namespace TinyDIP
             for (std::size_t x = 0; x < xsegments; ++x)
             {
                 std::vector<std::size_t> new_sizes{block_size_x + 2 * x_extension_pixel_count, block_size_y + 2 * y_extension_pixel_count};
-                auto centerx = x * block_size_x + static_cast<std::size_t>((block_size_x - 1) / 2.0);
-                auto centery = y * block_size_y + static_cast<std::size_t>((block_size_y - 1) / 2.0);
+                //  In the padded image, block (x, y) with its surroundings starts at (x * block_size_x, y * block_size_y)
+                auto centerx = x * block_size_x + new_sizes[0] / 2;
+                auto centery = y * block_size_y + new_sizes[1] / 2;
                 std::vector<std::size_t> centers{centerx, centery};
                 output2.push_back(subimage(
                     std::forward<ExecutionPolicy>(execution_policy),
-- 
2.43.0


From 90d330b8fb47d28e3ea6c8d09ef98aa272581c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 19/63] fix: pixelwise_transform rejects inputs of different
 sizes instead of reading out of bounds

---
 image_operations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 4182237..a8f50f3 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2052,6 +2052,10 @@ namespace TinyDIP
     template<std::size_t unwrap_level = 1, class... Args>
     constexpr static auto pixelwise_transform(auto op, const Args&... inputs)
     {
+        if (!((first_of(inputs...).getSize() == inputs.getSize()) && ...))
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         auto transformed_data = recursive_transform<unwrap_level>(
                 op,
                 inputs.getImageData()...);
-- 
2.43.0


From 3096f3bcd4d9839711a1484f1fd7848ba6e411cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 20/63] fix: histogram_with_bins counts from its lowest value
 and never indexes outside the bins

---
 image_operations.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index a8f50f3..e727843 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1359,7 +1359,11 @@ namespace TinyDIP
         auto image_data = input.getImageData();
         for (std::size_t i = 0; i < image_data.size(); ++i)
         {
-            std::size_t bin_index = std::floor((static_cast<double>(image_data[i]) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
+            if (!(image_data[i] >= lowest && image_data[i] <= max))
+            {
+                continue;                               //  not in any bin
+            }
+            std::size_t bin_index = std::floor(((static_cast<double>(image_data[i]) - static_cast<double>(lowest)) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
             if (bin_index == bins_count)
             {
                 ++histogram_output[bins_count - 1];
-- 
2.43.0


From aac2d9feccb921dea78e35028b8a39b5bc253498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 21/63] fix: cubic_interpolate keeps the fraction for integral
 samples

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index e727843..40ef989 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2292,7 +2292,7 @@ namespace TinyDIP
             const auto f = static_cast<ScalarT>(frac);
             return D + f * (C + f * (B + f * A));
         }
-        else if constexpr (std::is_arithmetic_v<DecayedT1>)
+        else if constexpr (std::is_floating_point_v<DecayedT1>)
         {
             const auto f = static_cast<DecayedT1>(frac);
             return D + f * (C + f * (B + f * A));
-- 
2.43.0


From cd98012447bd8aa21080fa3c8d6e27edaf56d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 22/63] fix: idct3 passes the template arguments
 idct3_one_plane expects

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 40ef989..d02eaf4 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3820,7 +3820,7 @@ namespace TinyDIP
         output.resize(input.size());
         for (std::size_t i = 0; i < input.size(); ++i)
         {
-            output[i] = idct3_one_plane<ElementT, OutputT>(input, i);
+            output[i] = idct3_one_plane<std::vector<Image<ElementT>>, ElementT, OutputT>(input, i);
         }
         return output;
     }
-- 
2.43.0


From 28d21fbed6138374896ee2275771d8db763289ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 23/63] fix: rotate no longer drops whole quarter turns

---
 image_operations.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index d02eaf4..1c4551b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5119,11 +5119,16 @@ namespace TinyDIP
             throw std::runtime_error("Unsupported dimension!");
         }
         auto output = input;
-        radians = std::fmod(radians, std::numbers::pi_v<long double> / 2.0);
-        while(radians > std::numbers::pi_v<long double> / 2.0)
+        constexpr auto quarter_turn = static_cast<FloatingType>(std::numbers::pi_v<long double> / 2.0);
+        radians = std::fmod(radians, 4 * quarter_turn);
+        if (radians < 0)
+        {
+            radians += 4 * quarter_turn;
+        }
+        while(radians >= quarter_turn)
         {
             output = rotate_detail(output, std::numbers::pi_v<long double> / 2.0);
-            radians-=(std::numbers::pi_v<long double> / 2.0);
+            radians -= quarter_turn;
         }
         output = rotate_detail(output, radians);
         return output;
-- 
2.43.0


From 936f2e3541d9bfa2643d73678c382db82106c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 24/63] fix: imgaussfilt centres its kernel, so an odd filter
 size no longer shifts the image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 1c4551b..ba6f0f5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5647,14 +5647,14 @@ namespace TinyDIP
         );
         auto filter_mask_x = gaussianFigure1D(
                                     filter_size1,
-                                    (static_cast<double>(filter_size1) + 1.0) / 2.0,
+                                    filter_size1 / 2,
                                     sigma1);
         auto sum_result = sum(std::forward<ExecutionPolicy>(execution_policy), filter_mask_x);
         filter_mask_x = divides(filter_mask_x, sum_result);             //  Normalization
         auto output = conv2(padded_image, filter_mask_x, true);
         auto filter_mask_y = transpose(std::forward<ExecutionPolicy>(execution_policy), gaussianFigure1D(
                                         filter_size2,
-                                        (static_cast<double>(filter_size2) + 1.0) / 2.0,
+                                        filter_size2 / 2,
                                         sigma2));
         sum_result = sum(filter_mask_y);
         filter_mask_y = divides(filter_mask_y, sum_result);             //  Normalization
-- 
2.43.0


From 20fb91f57cd2c49c6d6b118bbc7d8e103a8fa4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 25/63] fix: windowed_filter reads every window from the input,
 not from already filtered pixels

---
 image_operations.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index ba6f0f5..863955d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5826,6 +5826,8 @@ namespace TinyDIP
                 value_for_constant_padding
             );
         }
+        //  Windows are read from padded_image, results go to filtered_image
+        auto filtered_image = padded_image;
         // Iterate over all elements in the original image
         const std::size_t total_elements = input.count();
         #ifndef USE_OPENMP
@@ -5858,7 +5860,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at(padded_indices) =
+            filtered_image.at(padded_indices) =
                 std::invoke(filter, window);
 
             // Progress reporting
@@ -5906,7 +5908,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at_without_boundary_check(padded_indices) =
+            filtered_image.at_without_boundary_check(padded_indices) =
                 std::invoke(filter, window);
         }
         #endif
@@ -5917,7 +5919,7 @@ namespace TinyDIP
         {
             centers.emplace_back(s / 2);  // Center of padded image
         }
-        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), padded_image, original_sizes, centers);
+        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), filtered_image, original_sizes, centers);
         return output;
     }
 
-- 
2.43.0


From 7791379ceafc4429d117b6693d3873908e587040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 26/63] fix: draw_point draws a point closer to the left or top
 border than its radius

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 863955d..bddcaa5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6218,9 +6218,9 @@ namespace TinyDIP
         auto height = input.getHeight();
         auto width = input.getWidth();
         #pragma omp parallel for collapse(2)
-        for (std::size_t y = point_y - radius; y <= point_y + radius; ++y)
+        for (std::size_t y = (point_y > radius) ? (point_y - radius) : 0; y <= point_y + radius; ++y)
         {
-            for (std::size_t x = point_x - radius; x <= point_x + radius; ++x)
+            for (std::size_t x = (point_x > radius) ? (point_x - radius) : 0; x <= point_x + radius; ++x)
             {
                 if (x >= width || y >= height)
                 {
-- 
2.43.0


From 4cb0d4d3618586770c5155a577094dfebace38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 27/63] fix: highlight_region clips its frame to the image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index bddcaa5..bec758d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1958,9 +1958,9 @@ namespace TinyDIP
         assert(startx <= endx);
         assert(starty <= endy);
         auto output = input;
-        for (std::size_t y = starty - width / 2; y < endy + width / 2; ++y)
+        for (std::size_t y = (starty > width / 2) ? (starty - width / 2) : 0; y < std::min(endy + width / 2, input.getHeight()); ++y)
         {
-            for (std::size_t x = startx - width / 2; x < endx + width / 2; ++x)
+            for (std::size_t x = (startx > width / 2) ? (startx - width / 2) : 0; x < std::min(endx + width / 2, input.getWidth()); ++x)
             {
                 if (std::abs(static_cast<int>(x) - static_cast<int>(startx)) < width ||
                     std::abs(static_cast<int>(x) - static_cast<int>(endx)) < width ||
-- 
2.43.0


From dbf34528d58daf03ef86ace6c08472fc87201a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 28/63] fix: find_local_extrema no longer appends to one vector
 from several threads

---
 image_operations.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index bec758d..c37e003 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6756,7 +6756,9 @@ namespace TinyDIP
             std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>> output;
             auto width = input1.getWidth() - 1;
             auto height = input1.getHeight() - 1;
-            #pragma omp parallel for collapse(2)
+            //  One list per row: rows are processed in parallel
+            std::vector<std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>>> row_outputs(input1.getHeight());
+            #pragma omp parallel for
             for (std::size_t y = 1; y < height; ++y)
             {
                 for (std::size_t x = 1; x < width; ++x)
@@ -6769,7 +6771,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            row_outputs[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6782,7 +6784,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            row_outputs[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6793,6 +6795,10 @@ namespace TinyDIP
                     
                 }
             }
+            for (const auto& each_row : row_outputs)
+            {
+                output.insert(output.end(), each_row.begin(), each_row.end());
+            }
             return output;
         }
 
-- 
2.43.0


From 339b9a97a7f139fcfc9886b1aa1a1c08f62a3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 29/63] fix: get_potential_keypoint only visits the octaves and
 scales it generated

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index c37e003..f1d7bc3 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6963,10 +6963,10 @@ namespace TinyDIP
             {
                 // SERIAL VERSION (for std::execution::seq)
                 // No OpenMP, just plain loops.
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         //  `find_local_extrema` function is already parallelized with OpenMP,
                         //  so we can call it directly here without additional parallelization.
@@ -6995,11 +6995,11 @@ namespace TinyDIP
             {
                 // PARALLEL VERSION (for std::execution::par, par_unseq)
                 #pragma omp parallel for
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
                     #pragma omp parallel for
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         auto new_points = find_local_extrema(
                             each_octave[scale_index],
-- 
2.43.0


From fe87ddb1a10178261d7ecf7c5abef600d193f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 30/63] fix: keypoint_refinement inverts the Hessian, its
 diagonal was swapped

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index f1d7bc3..bf41b5d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6670,10 +6670,10 @@ namespace TinyDIP
             const ElementT second_derivative_x = (input.at(std::size_t{ 2 }, std::size_t{ 1 }) + input.at(std::size_t{ 0 }, std::size_t{ 1 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_y = (input.at(std::size_t{ 1 }, std::size_t{ 2 }) + input.at(std::size_t{ 1 }, std::size_t{ 0 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_xy = (input.at(std::size_t{ 2 }, std::size_t{ 2 }) - input.at(std::size_t{ 2 }, std::size_t{ 0 }) - input.at(std::size_t{ 0 }, std::size_t{ 2 }) + input.at(std::size_t{ 0 }, std::size_t{ 0 })) / 4.0;
-            const ElementT A = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT A = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT B = second_derivative_xy / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT C = B;
-            const ElementT D = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT D = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT offset_x = A * first_derivative_x + B * first_derivative_y;
             const ElementT offset_y = C * first_derivative_x + D * first_derivative_y;
             return std::make_tuple(
-- 
2.43.0


From 0474a732972597a735bf44abdb79adadf01415eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 31/63] fix: get_potential_keypoint drops keypoints refined to
 a location outside the image

---
 image_operations.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index bf41b5d..9e201e7 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7034,6 +7034,12 @@ namespace TinyDIP
             {
                 auto input_width = octaves[std::get<0>(each_keypoint)][0].getWidth();
                 auto input_height = octaves[std::get<0>(each_keypoint)][0].getHeight();
+                //  A refined location that is not a number or not in the image is not a keypoint
+                if (!(std::get<2>(each_keypoint) >= 0 && std::get<2>(each_keypoint) < static_cast<double>(input_width) &&
+                      std::get<3>(each_keypoint) >= 0 && std::get<3>(each_keypoint) < static_cast<double>(input_height)))
+                {
+                    continue;
+                }
                 mapped_keypoints.emplace_back(
                     mapping_point(
                         std::make_tuple(std::get<2>(each_keypoint), std::get<3>(each_keypoint)),
-- 
2.43.0


From c9e0e04769b1853640ca14d19b85db4886f40611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 32/63] fix: create_stitched_image without policy maps the
 canvas to image 2

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 9e201e7..82fd71b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -8137,12 +8137,12 @@ namespace TinyDIP
         const std::size_t out_height = static_cast<std::size_t>(std::ceil(max_y - min_y));
 
         linalg::Matrix<FloatingType> H_trans(3,3);
-        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = trans_x;
-        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = trans_y;
+        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = -trans_x;
+        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = -trans_y;
         H_trans.at(2,0) = 0; H_trans.at(2,1) = 0; H_trans.at(2,2) = 1;
 
-        // Combine translation with the original homography
-        auto H_final = linalg::multiply(H_trans, H_in);
+        // Canvas to image 1 (translation), then image 1 to image 2 (original homography)
+        auto H_final = linalg::multiply(H_in, H_trans);
 
         // 2. Warp img2 to align with img1's coordinate frame
         std::cout << "Warping image 2...\n";
-- 
2.43.0


From 440067569a5378ee3aa9849b0214f237af3e9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 33/63] fix: jacobi_eigen_solver counts sweeps, so a 9x9 matrix
 converges

---
 linear_algebra.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_algebra.h b/linear_algebra.h
index f5d3d16..184f789 100644
--- a/linear_algebra.h
+++ b/linear_algebra.h
@@ -154,7 +154,9 @@ namespace linalg
             eigenvectors.at(i, i) = 1.0;
         }
         
-        for (int iter = 0; iter < max_iterations; ++iter)
+        // A sweep is one rotation per off-diagonal pair
+        const std::size_t max_rotations = static_cast<std::size_t>(std::max(max_iterations, 0)) * (n * (n - 1) / 2);
+        for (std::size_t iter = 0; iter < max_rotations; ++iter)
         {
             // Find the largest off-diagonal element
             ElementT max_val = 0.0;
-- 
2.43.0


From 5129f25cb39bcba077e2e57276fe4e44f4d3a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 34/63] fix: Histogram's begin and end return iterators into
 the histogram, not into a temporary copy

---
 histogram.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/histogram.h b/histogram.h
index 50cf0a4..941f59a 100644
--- a/histogram.h
+++ b/histogram.h
@@ -239,12 +239,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                const auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                const auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -252,12 +252,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                const auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                const auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -265,12 +265,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                const auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                const auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -278,12 +278,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                const auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                const auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -291,12 +291,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.begin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.begin();
             }
         }
@@ -304,12 +304,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.end();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.end();
             }
         }
-- 
2.43.0


From 26ea798ead0e438c96d20caab018cab30de09ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 35/63] fix: Histogram's += and -= compile and change the
 histogram

---
 histogram.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/histogram.h b/histogram.h
index 941f59a..ce83297 100644
--- a/histogram.h
+++ b/histogram.h
@@ -315,12 +315,12 @@ namespace TinyDIP
         }
 
         // += operator to add two Histograms
-        Histogram& operator+=(const Histogram& other) const
+        Histogram& operator+=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched for vector-based histograms!");
@@ -329,18 +329,15 @@ namespace TinyDIP
                 {
                     get_result[i] += get_result_other[i];
                 }
-                histogram = get_result;
-                
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 for (const auto& [key, value] : get_result_other)
                 {
                     get_result[key] += value;
                 }
-                histogram = get_result;
             }
             return *this;
         }
@@ -354,12 +351,12 @@ namespace TinyDIP
         }
 
         // -= operator to subtract two Histograms
-        Histogram& operator-=(const Histogram& other) const
+        Histogram& operator-=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched!");
@@ -376,12 +373,12 @@ namespace TinyDIP
                         result_data[i] = 0;
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                histogram = result_data;
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 std::map<ElementT, CountT> result_data = get_result;
                 for (const auto& [key, value] : get_result_other)
                 {
@@ -397,8 +394,9 @@ namespace TinyDIP
                         }
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                histogram = result_data;
             }
+            return *this;
         }
 
         // operator- (using operator-=)
-- 
2.43.0


From 274b274a1ceb55a088f5fe530d1c7a548b463996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 36/63] fix: Histogram::to_probabilities_vector compiles for
 sparse histograms

---
 histogram.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histogram.h b/histogram.h
index ce83297..ded3b4f 100644
--- a/histogram.h
+++ b/histogram.h
@@ -209,12 +209,16 @@ namespace TinyDIP
             }
             else
             {
-                std::vector<std::pair<ElementT, double>> probability_vector(size());
+                std::vector<std::pair<ElementT, double>> probability_vector;
                 auto total_count = getCountSum(std::forward<ExecutionPolicy>(execution_policy));
                 for (const auto& [key, value] : *this)
                 {
                     probability_vector.emplace_back(
-                        { key, static_cast<FloatingType>(value) / static_cast<FloatingType>(total_count) });
+                        key, static_cast<FloatingType>(value) / static_cast<FloatingType>(total_count));
+                }
+                if (probability_vector.empty())
+                {
+                    return probabilities;
                 }
                 std::sort(std::forward<ExecutionPolicy>(execution_policy), probability_vector.begin(), probability_vector.end(),
                     [&](const auto& a, const auto& b) { return a.first < b.first; });
-- 
2.43.0


From a345561e7acd515a53c542e9f84b370d5a0a3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 37/63] fix: VolumetricImage constructors initialise the size

---
 cube.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cube.h b/cube.h
index e7953f7..2cc3a3f 100644
--- a/cube.h
+++ b/cube.h
@@ -28,8 +28,8 @@ namespace TinyDIP
 		VolumetricImage() = default;
 
         VolumetricImage(const std::size_t newWidth, const std::size_t newHeight, const std::size_t newDepth):
-            width(width),
-            height(height),
+            width(newWidth),
+            height(newHeight),
             depth(newDepth),
             data(width * height * depth) { }
 
@@ -182,9 +182,9 @@ namespace TinyDIP
         }
         
     private:
-        std::size_t width;
-        std::size_t height;
-        std::size_t depth;
+        std::size_t width = 0;
+        std::size_t height = 0;
+        std::size_t depth = 0;
         std::vector<ElementT> data;
         
         void checkBoundary(const size_t x, const size_t y, const size_t z) const
-- 
2.43.0


From 12c430408c156dbb1cddf8ccd9848ad74ec4900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 38/63] fix: VolumetricImage size comparisons use the accessors
 the class has

---
 cube_operations.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cube_operations.h b/cube_operations.h
index bce1bc7..69b3ec4 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -18,7 +18,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_width_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeX() == y.getSizeX();
+        return x.getWidth() == y.getWidth();
     }
 
     template<typename ElementT>
@@ -30,7 +30,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_height_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeY() == y.getSizeY();
+        return x.getHeight() == y.getHeight();
     }
     
     template<typename ElementT>
@@ -42,7 +42,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_depth_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeZ() == y.getSizeZ();
+        return x.getDepth() == y.getDepth();
     }
 
     template<typename ElementT>
-- 
2.43.0


From 3fcb10b4d896135d7b3c4b0dd8b8d351d0946e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 39/63] fix: voxelwiseOperation rejects inputs of different
 sizes instead of reading out of bounds

---
 cube_operations.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cube_operations.h b/cube_operations.h
index 69b3ec4..287eb92 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -148,6 +148,7 @@ namespace TinyDIP
     template<std::size_t unwrap_level = 1, class... Args>
     constexpr static auto voxelwiseOperation(auto op, const Args&... inputs)
     {
+        (check_size_same(first_of(inputs...), inputs), ...);
         auto output = VolumetricImage(
             recursive_transform<unwrap_level>(
                 [&](auto&& element1, auto&&... elements) 
-- 
2.43.0


From 646f0c6a4d4d2c6939ab1a14c6f5e6eff07e2938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 40/63] fix: renaming a workspace variable to its own name no
 longer deletes it

---
 main.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index d1a7c87..14412ec 100644
--- a/main.h
+++ b/main.h
@@ -421,8 +421,13 @@ struct Workspace
         const std::string old_key(sanitize_string_view(old_name));
         if (auto it = memory_store.find(old_key); it != std::ranges::end(memory_store))
         {
+            const std::string new_key(sanitize_string_view(new_name));
+            if (new_key == old_key)
+            {
+                return true;
+            }
             //  Use std::move to natively transfer ownership of the type-erased object with zero-copy
-            memory_store[std::string(sanitize_string_view(new_name))] = std::move(it->second);
+            memory_store[new_key] = std::move(it->second);
             memory_store.erase(it);
             return true;
         }
-- 
2.43.0


From 93039b93ac2546268a8bd34d384a25e5ef8d5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 41/63] fix: the pipeline optimizer keeps commands whose
 operands are files, 'copy' cannot replace them

---
 main.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/main.h b/main.h
index 14412ec..6b564a2 100644
--- a/main.h
+++ b/main.h
@@ -1056,10 +1056,11 @@ public:
                     
                     auto [ptr, ec] = std::from_chars(clean_factor.data(), clean_factor.data() + std::ranges::size(clean_factor), factor_val);
                     
-                    if (ec == std::errc() && factor_val == 1.0)
+                    const auto [cmd1_in, cmd1_out] = get_io(cmd1);
+
+                    //  'copy' works on memory variables only, a file operand must stay with 'multiply'
+                    if (ec == std::errc() && factor_val == 1.0 && cmd1_in.starts_with('$') && cmd1_out.starts_with('$'))
                     {
-                        auto [cmd1_in, cmd1_out] = get_io(cmd1);
-                        
                         os << "  [Peephole Optimizer] Detected Identity operation: 'multiply' by 1.0.\n";
                         os << "  [Peephole Optimizer] Downgrading to zero-overhead 'copy'.\n";
                         
@@ -1083,8 +1084,9 @@ public:
                     if (!cmd1_out.empty() && cmd1_out == cmd2_in)
                     {
                         // A. Inverses
-                        if ((cmd1.name == "dct2" && cmd2.name == "idct2") ||
-                            (cmd1.name == "idct2" && cmd2.name == "dct2"))
+                        if (((cmd1.name == "dct2" && cmd2.name == "idct2") ||
+                             (cmd1.name == "idct2" && cmd2.name == "dct2")) &&
+                            cmd1_in.starts_with('$') && cmd2_out.starts_with('$'))
                         {
                             os << "  [Peephole Optimizer] Detected redundant inverse chain: '" << cmd1.name << "' -> '" << cmd2.name << "'.\n";
                             os << "  [Peephole Optimizer] Collapsing chain into zero-overhead 'copy' (" << cmd1_in << " -> " << cmd2_out << ").\n";
-- 
2.43.0


From 666120ae1945ecb0eac0bc7d255547af26591dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:50 +0000
Subject: [PATCH 42/63] fix: difference, min and max cover every channel of a
 multi-channel image, not the first three

---
 image_operations.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 82fd71b..483837f 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3920,7 +3920,7 @@ namespace TinyDIP
             [](InputT element1, InputT element2)
             {
                 InputT output;
-                for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
+                for(std::size_t channel_index = 0; channel_index < std::ranges::size(output.channels); ++channel_index)
                 {
                     output.channels[channel_index] =
                         (element1.channels[channel_index] > element2.channels[channel_index]) ?
@@ -4348,7 +4348,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto min(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return min(each_plane); });
+        return apply_each_single_output(std::ranges::size(ElementT{}.channels), input, [&](auto&& each_plane) { return min(each_plane); });
     }
 
     //  max template function implementation
@@ -4363,7 +4363,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto max(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return max(each_plane); });
+        return apply_each_single_output(std::ranges::size(ElementT{}.channels), input, [&](auto&& each_plane) { return max(each_plane); });
     }
 
     //  minmax template function implementation
-- 
2.43.0


From 8ab3bb67266adf40195698b654d964a13501ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:18 +0000
Subject: [PATCH 43/63] fix: the size check moves from pixelwise_transform to
 the arithmetic built on it

backgroundTest calls pixelwise_transform with images of different sizes and has to keep passing.
---
 image_operations.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 483837f..db9ca20 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2056,10 +2056,6 @@ namespace TinyDIP
     template<std::size_t unwrap_level = 1, class... Args>
     constexpr static auto pixelwise_transform(auto op, const Args&... inputs)
     {
-        if (!((first_of(inputs...).getSize() == inputs.getSize()) && ...))
-        {
-            throw std::runtime_error("Size mismatched!");
-        }
         auto transformed_data = recursive_transform<unwrap_level>(
                 op,
                 inputs.getImageData()...);
@@ -3345,7 +3341,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static Image<InputT> add(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::plus<>{}, input1, add(inputs...));
+        const auto others = add(inputs...);
+        if (input1.getSize() != others.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::plus<>{}, input1, others);
     }
 
     template<class InputT, class... Args>
@@ -3531,7 +3532,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static auto pixelwise_multiplies(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::multiplies<>{}, input1, pixelwise_multiplies(inputs...));
+        const auto others = pixelwise_multiplies(inputs...);
+        if (input1.getSize() != others.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::multiplies<>{}, input1, others);
     }
 
     //  pixelwise_multiplies Template Function Implementation
@@ -3600,12 +3606,14 @@ namespace TinyDIP
     template<class InputT>
     constexpr static Image<InputT> divides(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::divides<>{}, input1, input2);
     }
     
     template<class InputT>
     constexpr static Image<InputT> modulus(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::modulus<>{}, input1, input2);
     }
 
@@ -3903,6 +3911,7 @@ namespace TinyDIP
     template<arithmetic ElementT = double>
     constexpr static auto difference(const Image<ElementT>& input1, const Image<ElementT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform([](auto&& element1, auto&& element2)
             {
                 if (element1 > element2)
@@ -3916,6 +3925,7 @@ namespace TinyDIP
     requires((std::same_as<InputT, RGB>) || (std::same_as<InputT, RGB_DOUBLE>) || (std::same_as<InputT, HSV>) || is_MultiChannel<InputT>::value)
     constexpr static auto difference(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(
             [](InputT element1, InputT element2)
             {
-- 
2.43.0


From 38be9cec9a58e1fbcd0d2245111f349d94c15ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:45 +0000
Subject: [PATCH 44/63] fix: rotate by whole quarter turns is exact despite
 rounding of the angle

---
 image_operations.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index db9ca20..08b6279 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5135,12 +5135,17 @@ namespace TinyDIP
         {
             radians += 4 * quarter_turn;
         }
-        while(radians >= quarter_turn)
+        //  an angle that is a whole number of quarter turns up to rounding needs no further rotation
+        constexpr auto tolerance = static_cast<FloatingType>(1024) * std::numeric_limits<FloatingType>::epsilon();
+        while(radians >= quarter_turn - tolerance)
         {
             output = rotate_detail(output, std::numbers::pi_v<long double> / 2.0);
             radians -= quarter_turn;
         }
-        output = rotate_detail(output, radians);
+        if (radians > tolerance)
+        {
+            output = rotate_detail(output, radians);
+        }
         return output;
     }
 
-- 
2.43.0


From 6cdd4b86bfd87357deca8c703aacea0d18033d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:33 +0000
Subject: [PATCH 45/63] fix: a histogram with negative values refuses a
 probabilities vector instead of writing before it

---
 histogram.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histogram.h b/histogram.h
index ded3b4f..4543d1a 100644
--- a/histogram.h
+++ b/histogram.h
@@ -222,6 +222,10 @@ namespace TinyDIP
                 }
                 std::sort(std::forward<ExecutionPolicy>(execution_policy), probability_vector.begin(), probability_vector.end(),
                     [&](const auto& a, const auto& b) { return a.first < b.first; });
+                if (probability_vector.front().first < ElementT{})
+                {
+                    throw std::out_of_range("A probabilities vector cannot be indexed by negative values");
+                }
                 probabilities.resize(probability_vector.back().first + 1, 0.0);
                 for (const auto& pair : probability_vector)
                 {
-- 
2.43.0


From abaa886ae5638963ed26e7c82fff27893e197059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:06 +0000
Subject: [PATCH 46/63] fix: bilateral_filter weights the whole window,
 distances to the left of and above the centre wrapped around

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 08b6279..3115bb0 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6065,7 +6065,7 @@ namespace TinyDIP
                             double sum_of_squares = 0.0;
                             for (std::size_t i = 0; i < vector1.size(); i++)
                             {
-                                sum_of_squares += std::pow(vector1[i] - vector2[i], 2.0);
+                                sum_of_squares += std::pow(static_cast<double>(vector1[i]) - static_cast<double>(vector2[i]), 2.0);
                             }
                             return std::sqrt(sum_of_squares);
                         }
-- 
2.43.0


From 33135ddec66471d890abbed29003e11a23fb8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:06 +0000
Subject: [PATCH 47/63] fix: increase_intensity saturates, an intensity beyond
 255 overflowed the conversion to 8 bits

---
 image_operations.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 3115bb0..cc0508d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6206,7 +6206,9 @@ namespace TinyDIP
         auto Hplane = TinyDIP::getHplane(HSV_image);
         auto Splane = TinyDIP::getSplane(HSV_image);
         auto Vplane = TinyDIP::getVplane(HSV_image);
-        return hsv2rgb(constructHSV(Hplane, Splane, multiplies(Vplane, times)));
+        auto brightened = multiplies(Vplane, times);
+        auto saturated = pixelwise_transform([](double value) { return std::clamp(value, 0.0, 255.0); }, brightened);
+        return hsv2rgb(constructHSV(Hplane, Splane, saturated));
     }
 
     //  sort template function implementation
-- 
2.43.0


From 9f3d8bd7c3b46bcb763370841b80818b3461e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 48/63] fix: euclidean_distance of RGB images, differences of
 the 8-bit channels wrapped around

---
 image_operations.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index cc0508d..02ed6df 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4241,7 +4241,12 @@ namespace TinyDIP
     {
         return sqrt(execution_policy, two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<double>{},
             [&](auto&& element1, auto&& element2) {
-                return pow(execution_policy, element1 - element2, 2.0);
+                MultiChannel<double> difference{};      //  in double, channels of RGB would wrap around
+                for (std::size_t i = 0; i < std::ranges::size(difference.channels); ++i)
+                {
+                    difference.channels[i] = static_cast<double>(element1.channels[i]) - static_cast<double>(element2.channels[i]);
+                }
+                return pow(execution_policy, difference, 2.0);
             }));
     }
 
-- 
2.43.0


From 069ab7dcbb34440efa5f4f3e5aea12f26cd695c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 49/63] fix: a pipeline passes its variables by position also
 when an execution policy precedes them

---
 main.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index 7bc1ecf..edf5940 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1272,17 +1272,30 @@ void run_interactive_mode(Workspace& workspace, const CommandRegistry& registry,
                 args_str.emplace_back(tokens[j]);
             }
 
+            //  Execution policies are no positional arguments, the schema index counts the other ones
+            auto insert_argument = [&args_str](const int logical_idx, const std::string& value)
+            {
+                constexpr std::array<std::string_view, 4> policies = {"seq", "par", "par_unseq", "unseq"};
+                auto pos = std::ranges::begin(args_str);
+                for (int remaining = logical_idx; remaining > 0 && pos != std::ranges::end(args_str); ++pos)
+                {
+                    if (!match_any(*pos, policies))
+                    {
+                        --remaining;
+                    }
+                }
+                args_str.insert(pos, value);
+            };
+
             // Inject intermediate variables into the correct argument index
             if (schema.in_idx != -1 && !std::ranges::empty(prev_pipe_var))
             {
-                const int insert_pos = std::min(schema.in_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, prev_pipe_var);
+                insert_argument(schema.in_idx, prev_pipe_var);
             }
 
             if (schema.out_idx != -1 && !std::ranges::empty(next_pipe_var))
             {
-                const int insert_pos = std::min(schema.out_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, next_pipe_var);
+                insert_argument(schema.out_idx, next_pipe_var);
             }
 
             execution_pipeline.push_back({command_name, std::move(args_str)});
-- 
2.43.0


From 74df6ca3615e417a4547174987238df87faa7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:18 +0000
Subject: [PATCH 50/63] fix: hold a plugin library before calling its entry
 point

If register_plugin_commands threw, the library was closed during unwinding,
so the handlers it had already registered and the exception itself (when its
type lives in the plugin) referred to unloaded code.
---
 main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index edf5940..2872cfd 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1429,9 +1429,6 @@ inline void load_plugins(
                     using RegisterFunc = void(*)(CommandRegistry&);
                     auto register_fn = lib.get_function<RegisterFunc>("register_plugin_commands");
                     
-                    // Inject the central registry into the DLL
-                    register_fn(registry);
-                    
                     // Securely hold the library handle in RAM so it doesn't destruct while executing
                     // Utilizing emplace_back to dynamically support vector, deque, and list natively
                     if constexpr (requires { active_plugins.emplace_back(std::move(lib)); })
@@ -1447,6 +1444,9 @@ inline void load_plugins(
                         active_plugins.insert(std::ranges::end(active_plugins), std::move(lib));
                     }
                     
+                    // Inject the central registry into the DLL
+                    register_fn(registry);
+                    
                     os << "  Loaded module: " << entry.path().filename().string() << "\n";
                 }
                 catch (const std::exception& e)
-- 
2.43.0


From 287c5d92992fde617a57b06a80d43e04c6dd7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 51/63] fix: unload plugins only after the workspace is
 destroyed

The workspace was declared first and so outlived the plugin libraries; a value
stored by a plugin was then destroyed by code already unmapped.
---
 main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 2872cfd..f749048 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1465,12 +1465,12 @@ inline void load_plugins(
 //  Main Entry Point
 int main(int argc, char* argv[])
 {
-    // Configure the shared state memory workspace
-    auto workspace = std::make_shared<Workspace>();
-
     // Define the persistent active plugins container at the highest scope to govern RAII destructors safely
     std::vector<DynamicLibrary> active_plugins;
     
+    // Configure the shared state memory workspace
+    auto workspace = std::make_shared<Workspace>();
+
     // Register commands directly with context-injected instances using generic variadic bundles
     CommandRegistry registry = command_registration(
         CommandBundle{"append_element", "Append an element to the back of a container using emplace_back.", CombinerSchema, 
-- 
2.43.0


From c35dd4742f65572961996998a5215b464e757f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 52/63] fix: a command that cannot write its output file
 reports an error

MetaImageIO::Saver ignored the result of the bmp, dbmp and hsv writers, so
'write' and the transform commands answered 'Done.' or 'Saved to' on a full
disk or for a directory that does not exist.
---
 main.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index 6b564a2..4598c69 100644
--- a/main.h
+++ b/main.h
@@ -705,7 +705,7 @@ public:
                     }
                     else
                     {
-                        TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        require_written(TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::RGB>>)
@@ -716,12 +716,12 @@ public:
                     }
                     else
                     {
-                        TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        require_written(TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::HSV>>)
                 {
-                    TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                    require_written(TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                 }
                 else
                 {
@@ -729,6 +729,16 @@ public:
                 }
             }
         }
+
+    private:
+        //  The raw writers report failure by their result
+        static void require_written(const int result, const std::filesystem::path& path)
+        {
+            if (result != 0)
+            {
+                throw std::runtime_error("Could not write file: " + path.string());
+            }
+        }
     };
 };
 
-- 
2.43.0


From c858f3b988f79a9ff2d947b2aac526e6ef6024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 53/63] fix: save_workspace reports variables it could not
 write

The results of the writers were ignored and every bundle was 'saved
successfully', also on a full disk.
---
 main.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/main.h b/main.h
index 4598c69..20e7c68 100644
--- a/main.h
+++ b/main.h
@@ -4425,6 +4425,20 @@ namespace handlers
 
         os << "Saving workspace bundle to " << dir_path.string() << "...\n";
 
+        bool complete = true;
+        auto report_save = [&](const int result, const std::string& name, const std::string& file)
+        {
+            if (result == 0)
+            {
+                os << "  Saved $" << name << " -> " << file << "\n";
+            }
+            else
+            {
+                os << "  Error: Could not save $" << name << " -> " << file << "\n";
+                complete = false;
+            }
+        };
+
         for (const auto& [name, value] : workspace.memory_store)
         {
             auto try_save_image = [&]<typename T>() -> bool
@@ -4436,18 +4450,15 @@ namespace handlers
                     
                     if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::RGB>>)
                     {
-                        TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".bmp\n";
+                        report_save(TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".bmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<double>>)
                     {
-                        TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".dbmp\n";
+                        report_save(TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".dbmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::HSV>>)
                     {
-                        TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".hsv\n";
+                        report_save(TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".hsv");
                     }
                     return true;
                 }
@@ -4482,7 +4493,7 @@ namespace handlers
                 }
             }
         }
-        os << "Workspace saved successfully.\n";
+        os << (complete ? "Workspace saved successfully.\n" : "Error: Workspace was not saved completely.\n");
     }
 
     //  subtract template function implementation
-- 
2.43.0


From 18792ef0ff4938c7986b5aa8a7e466c24da7fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:09 +0000
Subject: [PATCH 54/63] fix: a command that cannot read its dbmp or hsv input
 file reports an error

MetaImageIO::Loader passed on the empty image these readers return for a
missing or damaged file, so 'read' answered 'Done.' and stored an empty image.
---
 main.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/main.h b/main.h
index 20e7c68..f2768f2 100644
--- a/main.h
+++ b/main.h
@@ -661,17 +661,29 @@ public:
                     return TinyDIP::double_image::read_from_csv(input_path.string().c_str());
                 }
                 
-                return TinyDIP::double_image::read(input_path.string().c_str(), has_ext);
+                return require_read(TinyDIP::double_image::read(input_path.string().c_str(), has_ext), input_path);
             }
             else if constexpr (std::is_same_v<ImageType, TinyDIP::Image<TinyDIP::HSV>>)
             {
-                return TinyDIP::hsv_read(input_path.string().c_str(), has_ext);
+                return require_read(TinyDIP::hsv_read(input_path.string().c_str(), has_ext), input_path);
             }
             else
             {
                 throw std::invalid_argument("Direct file reading is not explicitly implemented for this abstract/complex data type.");
             }
         }
+
+    private:
+        //  The dbmp and hsv readers answer an unreadable file with an empty image
+        template <typename ImageType>
+        static ImageType require_read(ImageType&& img, const std::filesystem::path& path)
+        {
+            if (img.count() == 0)
+            {
+                throw std::runtime_error("Could not read file: " + path.string());
+            }
+            return std::move(img);
+        }
     };
 
     struct Saver
-- 
2.43.0


From c66129441ee97845e086ee7c33c0e9d7a6764beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 55/63] fix: grid refuses a cell size of zero

---
 main.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.h b/main.h
index f2768f2..05baf68 100644
--- a/main.h
+++ b/main.h
@@ -2999,6 +2999,11 @@ namespace handlers
             grid_size = parse_arg<std::size_t>(filtered_args[3]);
         }
 
+        if (grid_size == 0)
+        {
+            throw std::invalid_argument("Grid size must be positive.");
+        }
+
         if (!std::ranges::empty(policy_str))
         {
             os << "Generating grid image (" << width << "x" << height << ") with cell size " << grid_size << " (Policy: " << policy_str << ")...\n";
-- 
2.43.0


From 0183c34634a7c71ba14d5998ab50aa35e75d1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 56/63] fix: subimage refuses offsets whose sum with the size
 wraps around

---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index f749048..e644dea 100644
--- a/main.cpp
+++ b/main.cpp
@@ -802,7 +802,8 @@ namespace handlers
                     // Mathematically guarantee the type is a 2D matrix/image
                     if constexpr (requires { img.getWidth(); img.getHeight(); img.at(0, 0); })
                     {
-                        if (x_offset + sub_width > img.getWidth() || y_offset + sub_height > img.getHeight())
+                        if (sub_width > img.getWidth() || x_offset > img.getWidth() - sub_width ||
+                            sub_height > img.getHeight() || y_offset > img.getHeight() - sub_height)
                         {
                             throw std::out_of_range("Subimage bounds exceed original image dimensions.");
                             return std::any{};
-- 
2.43.0


From 34249387c06a37290edfd09c12993c17b781c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 57/63] fix: getRplane prints its usage

---
 main.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.h b/main.h
index 05baf68..b05f2f8 100644
--- a/main.h
+++ b/main.h
@@ -2884,7 +2884,7 @@ namespace handlers
     {
         if (channel_index == 0)
         {
-            "getRplane [execution_policy] <input_img | $var> <output_img | $var>";
+            return "getRplane [execution_policy] <input_img | $var> <output_img | $var>";
         }
         else if (channel_index == 1)
         {
-- 
2.43.0


From 9e6ad2b7a47b93590ecde49b611e518cc952539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 58/63] fix: pipe the output of zeros, ones, grid and
 gaussian_figure_2d

---
 main.cpp | 8 ++++----
 main.h   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index e644dea..43cba9d 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1510,7 +1510,7 @@ int main(int argc, char* argv[])
                 handlers::erase_element(workspace, args, os);
             }
         },
-        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", GeneratorSchema, 
+        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::gaussian_figure_2d(workspace, args, os);
@@ -1546,7 +1546,7 @@ int main(int argc, char* argv[])
                 handlers::get_sift_potential_keypoint(workspace, args, os);
             }
         },
-        CommandBundle{"grid", "Generate a grid image.", GeneratorSchema, 
+        CommandBundle{"grid", "Generate a grid image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::grid_generator(workspace, args, os);
@@ -1588,7 +1588,7 @@ int main(int argc, char* argv[])
                 handlers::normalize(workspace, args, os);
             }
         },
-        CommandBundle{"ones", "Generate an image filled with ones.", GeneratorSchema, 
+        CommandBundle{"ones", "Generate an image filled with ones.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::ones(workspace, args, os);
@@ -1642,7 +1642,7 @@ int main(int argc, char* argv[])
                 handlers::write(workspace, args, os);
             }
         },
-        CommandBundle{"zeros", "Generate an image filled with zeros.", GeneratorSchema, 
+        CommandBundle{"zeros", "Generate an image filled with zeros.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::zeros(workspace, args, os);
diff --git a/main.h b/main.h
index b05f2f8..44369fa 100644
--- a/main.h
+++ b/main.h
@@ -823,6 +823,7 @@ struct IOSchema
 
 //  Define human-readable pipeline schema routing constants globally
 constexpr auto GeneratorSchema = IOSchema{ -1, 1 };
+constexpr auto CreatorSchema = IOSchema{ -1, 0 };
 constexpr auto TerminatorSchema = IOSchema{ 0, -1 };
 constexpr auto TransformerSchema = IOSchema{ 0, 1 };
 constexpr auto CombinerSchema = IOSchema{ 0, 2 };
-- 
2.43.0


From 68332099e255924b7074fd539705f204753d7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 59/63] fix: elements of a bool container are stored as bool

---
 main.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index 44369fa..05ef7c3 100644
--- a/main.h
+++ b/main.h
@@ -2708,7 +2708,7 @@ namespace handlers
                 std::ranges::advance(it, index);
                 
                 // Store the extracted element safely into the workspace (invokes copy constructor to preserve independence)
-                workspace.store(output_arg.substr(1), *it);
+                workspace.store(output_arg.substr(1), static_cast<typename DecayedT::value_type>(*it));
                 os << "Saved element to " << output_arg << ".\n";
             }
             else
@@ -4845,7 +4845,7 @@ namespace handlers
                 auto exec_default = [&]() -> std::any
                 {
                     std::size_t idx = 0;
-                    for(const auto& element : candidate)
+                    for(const typename DecayedT::value_type& element : candidate)
                     {
                         const std::string temp_in = "__tc_in_" + std::to_string(idx);
                         const std::string temp_out = "__tc_out_" + std::to_string(idx);
@@ -4905,7 +4905,7 @@ namespace handlers
                             const std::string temp_in = "__tc_in_" + std::to_string(idx);
                             const std::string temp_out = "__tc_out_" + std::to_string(idx);
                             
-                            workspace.store(temp_in, elements[idx]); 
+                            workspace.store(temp_in, static_cast<typename DecayedT::value_type>(elements[idx])); 
                             
                             std::vector<std::string> local_args_str{};
                             if (!std::ranges::empty(policy_str)) 
-- 
2.43.0


From d4342da92174534c28aa872d4d9fd99d986fa7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 60/63] fix: transform_container reports a failing element
 instead of terminating

---
 main.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index 05ef7c3..da9f355 100644
--- a/main.h
+++ b/main.h
@@ -4817,6 +4817,12 @@ namespace handlers
         const std::string_view input_arg = filtered_args[0];
         const std::string_view output_arg = filtered_args[1];
         const std::string_view cmd_name = filtered_args[2];
+
+        if (!output_arg.starts_with('$'))
+        {
+            os << "Error: Output must be a memory variable starting with '$'.\n";
+            return;
+        }
         
         std::vector<std::string_view> sub_args{};
         for(std::size_t i = 3; i < std::ranges::size(filtered_args); ++i)
@@ -4874,6 +4880,8 @@ namespace handlers
                         registry.execute(workspace, std::string(cmd_name), local_args_sv, ss);
                         
                         auto out_any = workspace.retrieve_any(temp_out);
+                        workspace.remove(temp_in);
+                        workspace.remove(temp_out);
                         if (out_any.has_value())
                         {
                             result_anys[idx] = out_any.value();
@@ -4883,8 +4891,6 @@ namespace handlers
                             throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
                         }
                         
-                        workspace.remove(temp_in);
-                        workspace.remove(temp_out);
                         ++idx;
                     }
                     return std::any{};
@@ -4895,6 +4901,8 @@ namespace handlers
                 {
                     std::vector<typename DecayedT::value_type> elements(std::ranges::begin(candidate), std::ranges::end(candidate));
                     auto indices = std::views::iota(std::size_t{0}, total_elements);
+                    //  An exception leaving a parallel algorithm would terminate the program
+                    std::vector<std::string> failures(total_elements);
                     
                     std::for_each(
                         std::forward<ExecPolicy>(exec_policy),
@@ -4935,13 +4943,21 @@ namespace handlers
                             }
                             else
                             {
-                                throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
+                                failures[idx] = "Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str();
                             }
                             
                             workspace.remove(temp_in);
                             workspace.remove(temp_out);
                         }
                     );
+
+                    for (const auto& failure : failures)
+                    {
+                        if (!std::ranges::empty(failure))
+                        {
+                            throw std::runtime_error(failure);
+                        }
+                    }
                     return std::any{};
                 };
 
-- 
2.43.0


From 6964665c04f309ad258b9bab3283e1b760ffbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:27 +0000
Subject: [PATCH 61/63] fix: count command reports the number of matching
 pixels of an image

---
 main.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.h b/main.h
index da9f355..179a60c 100644
--- a/main.h
+++ b/main.h
@@ -2110,7 +2110,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::ranges::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
@@ -2128,7 +2128,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::count(std::forward<ExecPolicy>(exec_policy), std::ranges::begin(data), std::ranges::end(data), std::forward<TargetT>(target_val)); })
                         {
-- 
2.43.0


From b95f06d0f9728da61fcc014b4714b1751082bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:32 +0000
Subject: [PATCH 62/63] fix: generate_octave lets the caller catch a refused
 image

---
 image_operations.h | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 02ed6df..1203732 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6843,10 +6843,24 @@ namespace TinyDIP
                 return difference_of_gaussian_images;
             }
             difference_of_gaussian_images.resize(number_of_scale_levels - 1);
+            //  An exception must not leave the parallel region, it is thrown again afterwards
+            std::exception_ptr failure;
             #pragma omp parallel for
             for (int index = 0; index < number_of_scale_levels - 1; ++index)
             {
-                difference_of_gaussian_images[index] = (difference_of_gaussian(input, initial_sigma * std::pow(k, index), initial_sigma * std::pow(k, index + 1)));
+                try
+                {
+                    difference_of_gaussian_images[index] = (difference_of_gaussian(input, initial_sigma * std::pow(k, index), initial_sigma * std::pow(k, index + 1)));
+                }
+                catch (...)
+                {
+                    #pragma omp critical
+                    failure = std::current_exception();
+                }
+            }
+            if (failure)
+            {
+                std::rethrow_exception(failure);
             }
             return difference_of_gaussian_images;
         }
@@ -6899,21 +6913,35 @@ namespace TinyDIP
                 // Resize the vector directly for thread-safe assignment in OpenMP
                 octaves.resize(number_of_scale_levels - 1);
 
+                //  An exception must not leave the parallel region, it is thrown again afterwards
+                std::exception_ptr failure;
                 #pragma omp parallel for
                 for (int i = 0; i < static_cast<int>(number_of_scale_levels) - 1; ++i)
                 {
-                    // Safely capture 'i' by value and the rest by reference to prevent race conditions
-                    octaves[i] = apply_each(input, [&, i](auto&& each_plane)
+                    try
                     {
-                        const double sig1 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i));
-                        const double sig2 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i + 1));
+                        // Safely capture 'i' by value and the rest by reference to prevent race conditions
+                        octaves[i] = apply_each(input, [&, i](auto&& each_plane)
+                        {
+                            const double sig1 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i));
+                            const double sig2 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i + 1));
                         
-                        return TinyDIP::difference_of_gaussian(
-                            std::forward<decltype(each_plane)>(each_plane),
-                            sig1,
-                            sig2
-                        );
-                    });
+                            return TinyDIP::difference_of_gaussian(
+                                std::forward<decltype(each_plane)>(each_plane),
+                                sig1,
+                                sig2
+                            );
+                        });
+                    }
+                    catch (...)
+                    {
+                        #pragma omp critical
+                        failure = std::current_exception();
+                    }
+                }
+                if (failure)
+                {
+                    std::rethrow_exception(failure);
                 }
 
                 return octaves;
-- 
2.43.0


From b3897bb03453a9ab1e00361deb160d1336bc0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:59 +0000
Subject: [PATCH 63/63] fix: get_potential_keypoint leaves out octaves too
 small for their widest filter

---
 image_operations.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 1203732..95e1103 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6984,10 +6984,16 @@ namespace TinyDIP
             std::vector<std::vector<Image<ElementT>>> octaves;
             octaves.reserve(octaves_count);
             Image<ElementT> base_image = input;
+            //  The mirror padding of the widest Gaussian filter of an octave must fit into the image
+            const double widest_sigma = static_cast<double>(initial_sigma) *
+                std::max(1.0, (number_of_scale_levels > 1) ? std::pow(k, static_cast<double>(number_of_scale_levels - 1)) : 1.0);
+            const double widest_filter_size = computeFilterSizeFromSigma(widest_sigma);
             for (std::size_t octave_index = 0; octave_index < octaves_count; ++octave_index)
             {
                 if ((static_cast<double>(base_image.getWidth()) / 2.0) < 10 ||
-                    (static_cast<double>(base_image.getHeight()) / 2.0) < 10)
+                    (static_cast<double>(base_image.getHeight()) / 2.0) < 10 ||
+                    static_cast<double>(base_image.getWidth()) <= widest_filter_size ||
+                    static_cast<double>(base_image.getHeight()) <= widest_filter_size)
                 {
                     break;
                 }
-- 
2.43.0

