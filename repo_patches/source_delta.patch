From b192f4f2105a960419a8ecb1c2de834fcf9cb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 01/65] fix: read and write every byte of little-endian header
 and buffer fields

writeint/readint/buf2int dropped the most significant byte, so two byte
fields held only 0..255, and the file size was read as 8 bytes which
takes in the reserved words of the file header.
---
 pythonbmp/BITMAPlib.py | 6 +++---
 pythonbmp/inttools.py  | 9 +++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..03b52da 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -547,7 +547,7 @@ def _setflsz(bmp: array, size: int):
         byref modified unsigned byte array
         with new file size
     """
-    writeint(bmpfilesize, 8, bmp, size)
+    writeint(bmpfilesize, 4, bmp, size)
 
 
 def _flsz(bmp: array) -> int:
@@ -562,7 +562,7 @@ def _flsz(bmp: array) -> int:
         unsigned int value of size
         of the bmp header
     """
-    return readint(bmpfilesize, 8, bmp)
+    return readint(bmpfilesize, 4, bmp)
 
 
 def _sethdsz(bmp: array, hdsize: int):
@@ -1457,7 +1457,7 @@ def loadBMP(filename: str) -> array:
         if hd != b'BM':
             print(sysmsg['notBMP'])
         else:
-            fsize = char2int(f.read(8))
+            fsize = char2int(f.read(4))
             if fsize > 54:
                 f.seek(0)
                 a.frombytes(f.read(fsize))
diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..e943973 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,8 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
-    for i in range(j):
+    for i in range(cnt):
         arr[offset + i] = value & 0xff
         value = value >> 8
 
@@ -59,8 +58,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
-    return sum(arr[offset + i] << (i << 3) for i in range(j))
+    return sum(arr[offset + i] << (i << 3) for i in range(cnt))
 
 
 def int2buf(cnt: int, value: int
@@ -88,5 +86,4 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
-    return sum(buf[i] << (i << 3) for i in range(j))
+    return sum(b << (i << 3) for i, b in enumerate(buf))
-- 
2.43.0


From a8051aef17a690376f315ff694428b3a664c9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 02/65] fix: exact diagonal lines start and end on their
 endpoints

iterline stepped y before the first point of a 45 degree line, so it
missed the start point and ran one row past the end point, which on a
full size diagonal wrote outside of the pixel data.
---
 pythonbmp/primitives2D.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..205bc19 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -175,7 +175,13 @@ def iterline(p1: list[int, int],
     dyabs = abs(dy)
     x = y = 0
     (px, py) = p1
-    if dxabs >= dyabs:
+    if dxabs == dyabs:
+        ilim = dxabs + 1
+        for _ in range(ilim):
+            yield([px, py])
+            px += sdx
+            py += sdy
+    elif dxabs > dyabs:
         ilim = dxabs + 1
         for _ in range(ilim):
             y += dyabs
-- 
2.43.0


From 37e156c4831f333e340be7d5819e6cf5999148fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 03/65] fix: out of bounds lists are rejected and a copied
 rectangle keeps its size

listinBMPrecbnd and listinrecbnd returned True whatever the points were,
and copyrect stored a rectangle one or two pixels larger than the one it
copied, so pasterect shifted it down and convertselection2BMP grew it.
---
 pythonbmp/BITMAPlib.py    | 6 +++---
 pythonbmp/primitives2D.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 03b52da..96eb4e1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
@@ -7707,8 +7707,8 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 205bc19..4e2292a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -824,7 +824,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From 7e97a0cf6a19ae5dffa634b80fbd5a14815dc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 04/65] fix: copy, paste, upgrade and enlarge every pixel of 1
 and 4 bit rows

Scan line sizes were rounded down to whole bytes, so the last pixels of
rows that do not fill a byte were lost, regions that start inside a byte
were shifted, and 1-bit enlargement rotated the bits of each byte.
---
 pythonbmp/BITMAPlib.py | 31 ++++++++++++++++++++----
 pythonbmp/bufresize.py | 55 +++++++++++++++++++++++++++++++++---------
 2 files changed, 69 insertions(+), 17 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 96eb4e1..494ea5f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -331,6 +331,8 @@ from .funcmeta import getfuncmetastr
 
 from .bufresize import(
     adjustxbufsize,
+    packpixels,
+    unpackpixels,
     resizebufNtimesbigger,
     resizesmaller24bitbuf
     )
@@ -2295,6 +2297,15 @@ def itercopyrect(bmp: array,
     """
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
+    bits = bmp[bmpcolorbits]
+    if bits < 8:
+        x2 += 1
+        for y in range(y2, y1 - 1, -1):
+            yield array('B', packpixels(
+                [getxybit(bmp, x, y)
+                 for x in range(x1, x2)],
+                 bits))
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     offset = _BMoffset(bmp, x1, y2)
@@ -7546,7 +7557,7 @@ def upgradeto24bitimage(bmp: array):
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:3 * (mx + 1)])
             offset += r
     return nbmp
 
@@ -7745,10 +7756,20 @@ def pasterect(bmp: array, buf: array,
             startoff = 7
             endoff = br + 7
             bufsize = len(buf)
+            y = y2
             while startoff < bufsize:
-                BMPbitBLTput(bmp,
-                    offset,
-                    buf[startoff: endoff])
+                if buf[0] < 8:
+                    for x, c in zip(
+                        range(x1, x2 + 1),
+                        unpackpixels(
+                            buf[startoff: endoff],
+                            buf[0])):
+                        plotxybit(bmp, x, y, c)
+                    y -= 1
+                else:
+                    BMPbitBLTput(bmp,
+                        offset,
+                        buf[startoff: endoff])
                 offset += r
                 startoff = endoff
                 endoff += br
@@ -8891,7 +8912,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[:r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..4423f7f 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -45,11 +45,11 @@ def adjustbufsize(
         buffer size
     """
     if bits == 1:
-        bufsize >>= 3
+        bufsize = (bufsize + 7) >> 3
     elif bits == 24:
         bufsize *= 3
     elif bits == 4:
-        bufsize >>= 1
+        bufsize = (bufsize + 1) >> 1
     return bufsize
 
 
@@ -88,20 +88,51 @@ def packbitlisttobuf(blist: list[int]
     Returns:
         list
     """
+    return packpixels(blist, 1)
+
+
+def packpixels(pixels: list[int],
+             bits: int) -> list[int]:
+    """Packs a list of pixel values to
+        a list of bytes, the leftmost
+        pixel in the highest bits
+
+    Args:
+        pixels: list of pixel values
+        bits  : bits per pixel (1, 4)
+
+    Returns:
+        list of bytes
+    """
+    n = 8 // bits
     retval = []
-    j = len(blist) + 1
-    i = 1
-    b = 0
-    while i < j:
-        m = i % 8
-        b += blist[i - 1] << (7 - m)
-        if m == 0 and i > 1:
-            retval += [b]
-            b = 0
-        i += 1
+    for i in range(0, len(pixels), n):
+        b = 0
+        for j, p in enumerate(
+                pixels[i: i + n], start=1):
+            b |= p << (8 - bits * j)
+        retval.append(b)
     return retval
 
 
+def unpackpixels(buf: list[int],
+               bits: int) -> list[int]:
+    """Unpacks a list of bytes to a
+        list of pixel values
+
+    Args:
+        buf : list of bytes
+        bits: bits per pixel (1, 4)
+
+    Returns:
+        list of pixel values
+    """
+    m = (1 << bits) - 1
+    return [(b >> s) & m for b in buf
+            for s in range(8 - bits,
+                           -1, -bits)]
+
+
 def resizebitpattenNtimesbigger(
            byteval: int, n: int):
     """Resize byte n times bigger
-- 
2.43.0


From 2eadf10c0fd6be364e54e8f24fe22a4ec8c368a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 05/65] fix: a 4-bit horizontal line of one pixel paints that
 pixel

It painted nothing on an even column, and on an odd column its left
neighbour, which may be in another line or outside of the image data.
---
 pythonbmp/BITMAPlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 494ea5f..fd80748 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2047,7 +2047,10 @@ def horiline(bmp: array, y: int,
             bmp[s: e] = array('B', [c2] * dx)
             if c1 != -1:
                 bmp[s] = c1 + (bmp[s] & 0xf)
-            if x2 & 1 == 1:
+            if x1 == x2:
+                plotxybit(bmp,
+                    x1, y, color)
+            elif x2 & 1 == 1:
                 plotxybit(bmp,
                     x2 - 1, y, color)
         elif bits == 1:
-- 
2.43.0


From 5058dd2a40b8be3cb592a3591d40cca15b37cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 06/65] fix: a 4-bit horizontal line from an odd to an even
 column reaches its end

---
 pythonbmp/BITMAPlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fd80748..d82decb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2053,6 +2053,9 @@ def horiline(bmp: array, y: int,
             elif x2 & 1 == 1:
                 plotxybit(bmp,
                     x2 - 1, y, color)
+            elif x1 & 1 == 1:
+                plotxybit(bmp,
+                    x2, y, color)
         elif bits == 1:
             x2 += 1
             for x in range(x1, x2):
-- 
2.43.0


From d8bef3f45d6307fefcdeba8214b9c37dbb69c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 07/65] fix: flip and mirror whole pixels of 1 and 4 bit
 regions

The regions were moved in whole bytes, which shifted the image when its
width or the region edges do not fall on a byte boundary, and rotatebits
lost a pixel of each byte of a 1-bit image.
---
 pythonbmp/BITMAPlib.py | 107 ++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 39 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d82decb..85e80ba 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -241,10 +241,6 @@ from .paramchecks import(
     intcircleparam24bitonly
     )
 
-from .bufferflip import(
-    flipnibbleinbuf,
-    rotatebitsinbuf
-    )
 
 from .chartools import(
     char2int,
@@ -8161,6 +8157,18 @@ def verttransregion(bmp: array,
          'B': _B}[trans]
     x1, y1, x2, y2 = sortrecpoints(
                         x1, y1, x2, y2)
+    if bmp[bmpcolorbits] < 8:
+        while y1 < y2:
+            for x in range(x1, x2 + 1):
+                c1 = getxybit(bmp, x, y1)
+                c2 = getxybit(bmp, x, y2)
+                if trans != 'T':
+                    plotxybit(bmp, x, y1, c2)
+                if trans != 'B':
+                    plotxybit(bmp, x, y2, c1)
+            y1 += 1
+            y2 -= 1
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     c = _getBMoffhdfunc(bmp)
@@ -8335,6 +8343,43 @@ def horizontalbulkswap(bmp: array,
         x2 -= dx
 
 
+@entirerectinboundary
+def _horitranspixels(bmp: array,
+        x1: int, y1: int,
+        x2: int, y2: int, trans: str):
+    """Flips or mirrors horizontally
+        a rectangular area pixel by
+        pixel (1 and 4 bit bitmaps)
+
+    Args:
+        bmp           : unsigned
+                        byte array
+                        with bmp format
+        x1, y1, x2, y2: defines the
+                        rectangle
+        trans         : 'F' flip
+                        'L' mirror left
+                        'R' mirror right
+
+    Returns:
+        byref modified
+        unsigned byte array
+    """
+    x1, y1, x2, y2 = sortrecpoints(
+                        x1, y1, x2, y2)
+    for y in range(y1, y2 + 1):
+        i, j = x1, x2
+        while i < j:
+            ci = getxybit(bmp, i, y)
+            cj = getxybit(bmp, j, y)
+            if trans != 'L':
+                plotxybit(bmp, i, y, cj)
+            if trans != 'R':
+                plotxybit(bmp, j, y, ci)
+            i += 1
+            j -= 1
+
+
 def fliphorizontalregion(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int):
@@ -8361,21 +8406,15 @@ def fliphorizontalregion(bmp: array,
         bmp[s1: e1: r], bmp[s2: e2: r]= \
         bmp[s2: e2: r], bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-         flipnibbleinbuf(bmp[s2: e2: r]),  flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-        rotatebitsinbuf(bmp[s2: e2: r]), rotatebitsinbuf(bmp[s1: e1: r])
-
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixels(
+            bmp, x1, y1, x2, y2, 'F')
+        return
     horizontalbulkswap(
         bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorleftinregion(
@@ -8402,20 +8441,15 @@ def mirrorleftinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2: r] = bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-             flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-            rotatebitsinbuf(bmp[s1: e1: r])
-
-    horizontalbulkswap(bmp,
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixels(
+            bmp, x1, y1, x2, y2, 'L')
+        return
+    horizontalbulkswap(
+        bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorrightinregion(
@@ -8442,20 +8476,15 @@ def mirrorrightinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1: r] = bmp[s2: e2: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-             flipnibbleinbuf(bmp[s2: e2: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-            rotatebitsinbuf(bmp[s2: e2: r])
-
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixels(
+            bmp, x1, y1, x2, y2, 'R')
+        return
     horizontalbulkswap(
-        bmp, x1, y1, x2, y2,
+        bmp,
+        x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorleft(bmp: array):
-- 
2.43.0


From 22fe1faab8c8c1eb6a3e19fcc42e03ee029d17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 08/65] fix: circular regions are checked against the height of
 the bitmap

The bottom edge was compared with the width, so a wide bitmap accepted
circles below its last row and a tall one rejected circles inside it.
---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 61cc46f1e67b8d95f5af043f8f30516f67ff42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 09/65] fix: colors given as tuples or arrays match their
 palette entry

matchRGBtopal compared them with the lists of the palette, so they were
never found and black, which the distance search skips, was replaced by
the nearest other color, as in filledrect on an 8-bit bitmap.
---
 pythonbmp/colors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..81466e4 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -290,6 +290,7 @@ def matchRGBtopal(RGB: list,
     """
     c = i = 0
     d = 442
+    RGB = list(RGB)
     if RGB in pal:
         c = pal.index(RGB)
     else:
-- 
2.43.0


From be785dacbbc32ba109c12b6a577da098f97ae555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 10/65] fix: the sides of an ellipse stay within its horizontal
 axis

The decision variable of the steep part of the ellipse had its sign and
start value wrong, so most ellipses grew a column beyond their axis.
---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4e2292a..50020d7 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -260,15 +260,15 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
             d -= _4a_sqr * row
         d += _2b_sqr * (3 + (col << 1))
         col += 1
-    d = _2b_sqr * ((col - 1) * col) + \
+    d = _2b_sqr * ((col + 1) * col) + \
         _2a_sqr * (row * (row - 2) + 1) + \
         (1 - _2a_sqr) * b_sqr
     while row > -1:
         yield [col, row]
-        if d >= 0:
+        if d < 0:
             col += 1
-            d -= _4b_sqr * col
-        d += _2a_sqr * (3 + (row << 1))
+            d += _4b_sqr * col
+        d += _2a_sqr * (3 - (row << 1))
         row -= 1
 
 
-- 
2.43.0


From 725118ce8300a92ba818d28c8749275e7ab47b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 11/65] fix: ellipses are clipped along the axis that leaves
 the bitmap

The boundary check swapped the axes, so an ellipse wider than the bitmap
was drawn unclipped on its neighbouring rows.
---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 50020d7..6d077e1 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -876,10 +876,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From 4f9f1ac8df2792645cb196a5ba7b68b257fea0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 12/65] fix: monocircle works on circles that reach outside of
 the bitmap

A stray comma made the row offset a tuple and raised a TypeError.
---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 85e80ba..6a04dc5 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2516,7 +2516,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From 4277555388a589d4d976c626b6ffed27c0832ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 13/65] fix: iterimageRGB starts a new row when the last byte
 of a row is partial

Widths that do not fill a byte (1 and 4 bit) never matched the end of
row test, so every following pixel got wrong coordinates or was lost.
---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6a04dc5..daa6bcc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7624,7 +7624,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From b754654fc64e3e3035df0804040eb834f52e8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 14/65] fix: crop keeps the palette of 8-bit bitmaps

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index daa6bcc..c5ebc37 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8800,8 +8800,9 @@ def crop(bmp: array, x1: int, y1: int,
     bits = bmp[bmpcolorbits]
     nbmp = newBMP(x2 - x1 + 1,
                   y2 - y1 + 1, bits)
-    if bits < 8:
+    if bits < 24:
         copyRGBpal(bmp, nbmp)
+    if bits < 8:
         for v in itergetcolorfromrectregion(
                     bmp, x1, y1, x2, y2):
             intplotvecxypoint(nbmp,
-- 
2.43.0


From 15ee88ed43af7a41aa5b4f016cdcf531279a8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 15/65] fix: erasing alternate lines reaches the last row

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c5ebc37..3d887ca 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7853,7 +7853,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -7997,7 +7997,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From 7ad7b88d60c3b7c7deb7d582dc7eb3c4fc9b3052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 16/65] fix: erasing lines in a 1 or 4 bit region leaves pixels
 around it alone

---
 pythonbmp/BITMAPlib.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3d887ca..be1738e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7990,6 +7990,19 @@ def erasealternatehorizontallinesinregion(
     bytepat &= 0xff
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
+    bits = bmp[bmpcolorbits]
+    if bits < 8:
+        n = 8 // bits
+        m = (1 << bits) - 1
+        for i, y in enumerate(
+            range(y1, y2 + 1), start=1):
+            if i % int_eraseeverynline == \
+                   int_eraseNthline:
+                for x in range(x1, x2 + 1):
+                    plotxybit(bmp, x, y,
+                        (bytepat >> (8 - bits *
+                        (x % n + 1))) & m)
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     f = _getBMoffhdfunc(bmp)
-- 
2.43.0


From c1fec88f3324621583a12e205d8a117df7dea25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 17/65] fix: brightness gradients accept regions of one column
 or one row

They divided by the difference of the edges, which is zero there.
---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index be1738e..c930e27 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12432,7 +12432,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / setmin(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
@@ -12469,7 +12469,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / setmin(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From f43dfb0476e0f307c1ff0858a1be4edba06d9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 18/65] fix: det3D uses the third row in its last term

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From 2ba8439d6f77f41c4ec98b2a469357f2416aefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 19/65] fix: pasting a circular buffer of another bit depth
 reports the mismatch

It raised a plain string, which ends in a TypeError.
---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c930e27..67217d7 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2648,7 +2648,7 @@ def pastecirularbuf(bmp: array,
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
                         circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                print(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
-- 
2.43.0


From 6f3fcaafc5b5b88231ee0cf668ed113a83376603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 20/65] fix: sphere2file reports a missing input file like the
 other file functions

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 67217d7..fbc27ac 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13670,6 +13670,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From 8b19a52c14ae4278987a6d2943b783cb4f481bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 21/65] fix: the mspaint launcher opens the file it is given

It passed the argument list as one argument, so argv[1] was ignored, and
named an exception that does not exist, so it crashed off Android.
---
 mspaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mspaint.py b/mspaint.py
index 38eb893..c20eb23 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -75,7 +75,7 @@ def is_in_pytest():
     )
 
 
-file: Path = determine_file(argv)
+file: Path = determine_file(*argv)
 print(file)
 is_windows: bool = platform == "win32"
 is_android: bool
@@ -86,7 +86,7 @@ try:
         ).strip()
         == "Android"
     )
-except (CalledProcessError, FileNotFoundException):
+except (CalledProcessError, FileNotFoundError):
     is_android = False
 if is_windows:
     print(
-- 
2.43.0


From bb834f6b930b0065e94bbd74d558e64cda1b7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 22/65] fix: the first row and column count as neighbors

itergetneighbors skipped row 0 and column 0, so edge detection missed
edges against them.
---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 6d077e1..89a4497 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -674,20 +674,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From d53fc8f67a300d7ad0b4d1bbf97c0c549b3dd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 23/65] fix: a horizontal line left or right of the bitmap
 paints nothing

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fbc27ac..1361f6d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2023,6 +2023,8 @@ def horiline(bmp: array, y: int,
         x1, x2 = swapif(x1, x2, x1 > x2)
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
+        if x1 > x2:
+            return
         dx = x2 - x1 + 1
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
-- 
2.43.0


From 96cc5de5d6f746fc68dd29185d72bfc0f7a44d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 24/65] fix: a vertical line above or below the bitmap paints
 nothing

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1361f6d..4a9a6c3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2095,6 +2095,8 @@ def vertline(bmp: array, x: int,
                 swapif(y1, y2, y1 > y2)
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
+            if y1 > y2:
+                return
             dy = y2 - y1 + 1
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
-- 
2.43.0


From 41d01e032669191033d58282e838f967e45a2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 25/65] fix: filled circles and ellipses left or right of the
 bitmap paint nothing

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4a9a6c3..a6b376b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3397,6 +3397,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
@@ -3415,6 +3417,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
@@ -3767,6 +3771,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = \
@@ -3786,6 +3792,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
-- 
2.43.0


From 02fceded4040f800fa9929a8005f8d170f898933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 26/65] fix: rows of odd length keep their last pixel when
 resized

---
 pythonbmp/buffersplit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..8595c3f 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -48,8 +48,6 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +69,6 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From fb1aea1c8f7469a1f268e80e89c9a7073f1afb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 27/65] fix: a pixelized circle takes its pixels from the
 pixelized picture only

---
 pythonbmp/BITMAPlib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a6b376b..2bc007d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12536,12 +12536,17 @@ def pixelizenxncircregion(bmp: array,
         byref modified unsigned byte array
     """
     b = pixelizenxn(bmp, n)
+    (bx, by) = getmaxxy(b)
     c = _BMoffsethd
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
-        y1, y2 = mirror(y, v1)
-        bmp[c(bmp, x1, y1): c(bmp, x2, y1)], bmp[c(bmp, x1, y2): c(bmp,x2,y2)]= \
-        b[c(b, x1, y1): c(b, x2, y1)], b[c(b, x1, y2): c(b, x2, y2)]
+        x2 = setmax(x2, bx)
+        if x1 >= x2:
+            continue
+        for y3 in mirror(y, v1):
+            if y3 < by:
+                bmp[c(bmp, x1, y3): c(bmp, x2, y3)] = \
+                b[c(b, x1, y3): c(b, x2, y3)]
 
 
 @func24bitonly
-- 
2.43.0


From cce0ff0b60ded92cac1bed6f0778b514e3b87055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 28/65] fix: copying and flipping circular regions of 1 and 4
 bit bitmaps moves whole pixels

---
 pythonbmp/BITMAPlib.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2bc007d..fcfccb6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2612,6 +2612,11 @@ def copycircregion2buf(bmp: array,
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
+        if copybuf[0] < 8:
+            copybuf += [[[getxybit(bmp, i, j)
+                          for i in range(x1, x2)]
+                          for j in (y1, y2)]]
+            continue
         copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
                      bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
     return copybuf
@@ -2647,6 +2652,11 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
+                    if circbuf[0] < 8:
+                        for y3, row in zip((y1, y2), circbuf[i]):
+                            for x3, color in enumerate(row, x1):
+                                plotxybit(bmp, x3, y3, color)
+                        continue
                     bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
                         circbuf[i][0]
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
@@ -2757,14 +2767,10 @@ def flipXYcircregion(bmp: array,
     if bits not in [24, 8]:
         n = flipXY(bmp)
         for (v0, v1) in itercirclepartlineedge(r):
-            x3, x4 = mirror(y, v0)
-            y3, y4 = mirror(x, v1)
-            x1, x2 = mirror(x, v0)
-            y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            for dy in mirror(0, v1):
+                for dx in range(-v0, v0):
+                    plotxybit(bmp, x + dx, y + dy,
+                        getxybit(n, y + dx, x + dy))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
-- 
2.43.0


From 7930e1de1b0647046e1c6a534afb97ffac3c6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 29/65] fix: flipping, inverting and outlining circular regions
 of 1 and 4 bit bitmaps works on pixels

---
 pythonbmp/BITMAPlib.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fcfccb6..2ba64b3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2716,6 +2716,21 @@ def _usenoparfn2circreg(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
+    bits = bmp[bmpcolorbits]
+    if bits < 8:
+        (xmax, ymax) = getmaxxy(bmp)
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            x1 = setmin(x1, 0)
+            x2 = setmax(x2, xmax - 1)
+            for y3 in {*mirror(y, v1)}:
+                if x1 < x2 and isinrange(y3, ymax, -1):
+                    buf = packpixels([getxybit(bmp, i, y3)
+                            for i in range(x1, x2)], bits)
+                    for i, color in zip(range(x1, x2),
+                        unpackpixels(func(array('B', buf)), bits)):
+                        plotxybit(bmp, i, y3, color)
+        return
     c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y, -1, getmaxx(bmp),
@@ -2973,6 +2988,15 @@ def verttransformincircregion(
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
+        if bmp[bmpcolorbits] < 8:
+            for i in range(x1, x2):
+                c1 = getxybit(bmp, i, y1)
+                c2 = getxybit(bmp, i, y2)
+                if trans != 'T':
+                    plotxybit(bmp, i, y1, c2)
+                if trans != 'B':
+                    plotxybit(bmp, i, y2, c1)
+            continue
         s1 = c(bmp, x1, y1)
         e1 = c(bmp, x2, y1)
         s2 = c(bmp, x1, y2)
@@ -3178,6 +3202,19 @@ def outlinecircregion(bmp: array,
         byref modified unsigned byte array
     """
     bits = bmp[bmpcolorbits]
+    if bits < 8:
+        (xmax, ymax) = getmaxxy(bmp)
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            x1 = setmin(x1, 0)
+            x2 = setmax(x2, xmax - 1)
+            for y3 in {*mirror(y, v1)}:
+                if isinrange(y3, ymax, -1):
+                    for i in range(x1, x2):
+                        plotxybit(bmp, i, y3,
+                            getxybit(bmp, i, y3) ^
+                            getxybit(bmp, i + 1, y3))
+        return
     c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y,
-- 
2.43.0


From a082b00ea91baaba7281880181227a133d228f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 30/65] fix: pixelizing a bitmap that is not 24-bit reports the
 error only

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2ba64b3..764d099 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12635,6 +12635,7 @@ def resizeNtimessmaller(
     return nbmp
 
 
+@func24bitonly
 def pixelizenxn(bmp: array,
         n: int) -> array:
     """Pixelize a whole image with n by n areas
-- 
2.43.0


From 41e6a4f77d8beed1db390fdcaab786ec022ee94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 31/65] fix: circular regions left of the bitmap change nothing

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 764d099..8244e19 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2519,6 +2519,8 @@ def _usenopar24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2577,6 +2579,8 @@ def _use24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2753,6 +2757,8 @@ def _usenoparfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -3254,6 +3260,8 @@ def outlinecircregion(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 8dcf5f822b533a9507f0ffa2e4e8a66eeb43e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 32/65] fix: color filters with factors above 1 saturate
 instead of failing

---
 pythonbmp/colors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 81466e4..b0c657c 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -796,9 +796,9 @@ def applycolorfiltertoBGRbuf(
     m = len(buf) - 1
     (r, g, b) = rgbfactors
     buf[0 : m - 2 : 3], buf[1 : m - 1 : 3], buf[2: m: 3] = (
-    array('B', intscalarmulvect(buf[  : m - 2 : 3], b)),
-    array('B', intscalarmulvect(buf[1 : m - 1 : 3], g)),
-    array('B', intscalarmulvect(buf[2 : m     : 3], r)),
+    array('B', setminmaxvec(intscalarmulvect(buf[  : m - 2 : 3], b), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[1 : m - 1 : 3], g), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[2 : m     : 3], r), 0, 255)),
     )
 
 
-- 
2.43.0


From 8e7f32cc4b23c86e61585d71f937f11fca5a370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:08 +0000
Subject: [PATCH 33/65] fix: gradient ellipses stop at their thinner axis

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8244e19..e250ea4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3936,6 +3936,8 @@ def gradellipse(bmp: array,
     a -= r
     b -= r
     for i in range(r, 0, -1):
+        if a + i < 0 or b + i < 0:
+            break
         c = colormix(
                 int(fn(l1, l2, i / r)),
                 RGBfactors)
-- 
2.43.0


From 7b3d133f1120796040959006eff7c6cafc50a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:06 +0000
Subject: [PATCH 34/65] fix: a palette made of few colors is also set in the
 new bitmap

---
 pythonbmp/BITMAPlib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e250ea4..aa79425 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1317,7 +1317,9 @@ def setnewpalfromsourcebmp(
         colorhistogram(sourcebmp),
         getmaxcolors(newbmp),
         similaritythreshold)
-    setbmppal(newbmp, newpal)
+    setbmppal(newbmp, newpal +
+        [[0, 0, 0]] * (getmaxcolors(newbmp) -
+                       len(newpal)))
     return newpal
 
 
-- 
2.43.0


From 0c921416e4508e15d5f7955f40f6ddf195f9eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:52 +0000
Subject: [PATCH 35/65] fix: outlining a region leaves the pixels outside of it
 alone

---
 pythonbmp/BITMAPlib.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index aa79425..671744b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12731,6 +12731,15 @@ def _cmpimglines(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int,
         func: Callable):
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    if bmp[bmpcolorbits] < 8:
+        for x in range(x1, x2 + 1):
+            for y in range(y2, y1 - 1, -1):
+                plotxybit(bmp, x, y, func(
+                    [getxybit(bmp, x, max(y - 1, y1))],
+                    [getxybit(bmp, x, y)])[0])
+        return
     offset = _BMoffset(bmp, x1, y2)
     r = _xchrcnt(bmp)
     oldbuf = []
-- 
2.43.0


From c1eb659863e2a1bb9ba309a32c747e9000dd765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 36/65] fix: erasing lines in a circle leaves the pixels
 outside of it alone

---
 pythonbmp/BITMAPlib.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 671744b..65fa872 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7983,9 +7983,21 @@ def erasealternatehorizontallinesincircregion(
     """
     c = _getBMoffhdfunc(bmp)
     bytepat &= 0xff
+    bits = _getclrbits(bmp)
+    n = 8 // bits
+    m = (1 << bits) - 1
     for v in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v[0])
         y1, y2 = mirror(y, v[1])
+        if bits < 8:
+            for y3 in (y1, y2):
+                if y3 % int_eraseeverynline == \
+                        int_eraseNthline:
+                    for x3 in range(x1, x2):
+                        plotxybit(bmp, x3, y3,
+                            (bytepat >> (8 - bits *
+                            (x3 % n + 1))) & m)
+            continue
         s1 = c(bmp, x1, y1)
         e1 = c(bmp, x2, y1)
         s2 = c(bmp, x1, y2)
-- 
2.43.0


From de131979ed9fcb0c72b0e60f3ceff72d76022470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 37/65] fix: autocrop content that touches the right or bottom
 edge

---
 pythonbmp/BITMAPlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 65fa872..0d82b1f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14662,6 +14662,7 @@ def invertregion2file(
         x1, y1, x2, y2, invertregion)
 
 
+@checklink
 @functimer
 def autocropimg2file(
         ExistingBMPfile: str,
@@ -14681,11 +14682,13 @@ def autocropimg2file(
         new bitmap file
     """
     bmp = loadBMP(ExistingBMPfile)
+    v1, (x2, y2) = rectboundarycoords(
+            getimagedgevert(bmp,
+                similaritythreshold))
     cropBMPandsaveusingrectbnd(
         ExistingBMPfile, NewBMPfile,
-        rectboundarycoords(
-            getimagedgevert(bmp,
-                similaritythreshold)))
+        (v1, (min(x2, getmaxx(bmp) - 2),
+              min(y2, getmaxy(bmp) - 2))))
 
 
 @functimer
-- 
2.43.0


From 7cc920ea8c4a3e9b6734f681220b5db45b14cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 38/65] fix: sideway italic text of scale 1 leans to the same
 side as larger text

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 0d82b1f..d315329 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -5006,7 +5006,7 @@ def plotitalic8bitpatternsidewaywithfn(
             x += scale
             y = oy + i
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
     elif type(color) == list or type(color) == tuple:
         colorcnt = len(color)
         colorind = 0
@@ -5028,7 +5028,7 @@ def plotitalic8bitpatternsidewaywithfn(
             if colorind == colorcnt:
                 colorind = 0
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
 
 def plot8bitpatternsideway(
         bmp: array, x: int, y: int,
-- 
2.43.0


From 7bad947281201409350171f18aa60434e4bf1321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 39/65] fix: a regular polygon has as many vertices as sides

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 89a4497..b7e0814 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -506,11 +506,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(360 * i / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From 0a47d2ac7c449f7c9238a99bc173b190952a9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 40/65] fix: the hypotrochoid rolls inside the fixed circle

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index b7e0814..dd79994 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1189,12 +1189,12 @@ def iterhypotrochoid(
         [[x: int, y: int], ...]
     """
     p = a - b
-    d = (a / b) + 1
+    d = (a / b) - 1
     t = 0
     q = complex(x, y)
     while t < lim:
-        z = rect(p, t) - \
-            rect(c, d * t) + q
+        z = rect(p, t) + \
+            rect(c, -d * t) + q
         t += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From c65a562f0d128d4cbd9696e77ac45e2cf5d7f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 41/65] fix: the circle involute follows the involute of the
 circle

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index dd79994..ff85ea7 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1060,7 +1060,7 @@ def itercircleinvolute(
     b = complex(x, y)
     while t < lim:
         z = rect(1, t)
-        z *= a * z * t * 1j
+        z *= a * (1 - t * 1j)
         t += delta
         z += b
         yield (round(z.real),
-- 
2.43.0


From 042f38a161a6b68976d2ea1b271a594ae6b3abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 42/65] fix: Bezier curves reach their last control point

---
 pythonbmp/primitives2D.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index ff85ea7..9a37c9f 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -355,21 +355,19 @@ def iterbeziercurve(
     cnt = len(pntlist)
     w = v = pntlist[0]
     klim = cnt << 2
-    for i in range(cnt):
-        if i > cnt - 2:
-            last = i - 1
-            for k in range(klim):
-                u = k / klim
-                v = [0, 0]
-                for j in range(i):
-                    v = addvect(v,
-                         scalarmulvect(
-                                pntlist[j],
-                          _bezierblend(
-                                j, last, u)))
-                yield from iterline(roundvect(v),
-                                    roundvect(w))
-                w = v
+    last = cnt - 1
+    for k in range(klim + 1):
+        u = k / klim
+        v = [0, 0]
+        for j in range(cnt):
+            v = addvect(v,
+                 scalarmulvect(
+                        pntlist[j],
+                  _bezierblend(
+                        j, last, u)))
+        yield from iterline(roundvect(v),
+                            roundvect(w))
+        w = v
 
 
 def beziercurvevert(
-- 
2.43.0


From 6d33b998fc557761ab9600aa06722a6886a3580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 43/65] fix: gradthickellipserot uses its gradient function

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d315329..f7b576d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3782,7 +3782,7 @@ def gradthickellipserot(bmp: array,
     """
     (l1, l2) = lumrange
     for i in range(penradius, 0, -1):
-        c = colormix(int(lerp(l1, l2, i / penradius)),
+        c = colormix(int(fn(l1, l2, i / penradius)),
                 RGBfactors)
         if bmp[bmpcolorbits] != 24:
             c = matchRGBtopal(
-- 
2.43.0


From a9fb15cbed7164fe1f84d336a972f3bf44fc48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 44/65] fix: multisuperellipse draws on palette bitmaps

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f7b576d..97a7b3e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9279,19 +9279,19 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            bmp[_8bmofhd(bmp, x, y)] = int(c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c % maxcolors)
+            plotxybit(bmp, x, y, int(c) % maxcolors)
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
-- 
2.43.0


From a9c4ae4cd29997636af5ab27ecc791f43ce6ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 45/65] fix: a pie chart shows both of two equal halves

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 97a7b3e..d8a1f91 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12379,8 +12379,8 @@ def piechart(bmp: array,
     if big > -1: #for speed more computions in drawarc
             circle(bmp, x, y, r,
                 alist[big][2], True)
-    for a in alist:
-        if a[4] < 50:
+    for i, a in enumerate(alist):
+        if i != big:
             drawarc(bmp, x, y, r,
                 a[0], a[1], a[2],
                 True, a[2], True)
-- 
2.43.0


From 5875c0edcfbf8c8657bcdc657473ac7384039adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 46/65] fix: an arc too short to have a pixel draws nothing

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d8a1f91..388222b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3985,7 +3985,7 @@ def drawarc(bmp: array,
     for p in av:
         plotxybit(bmp, p[0], p[1],
             color)
-    if isfilled:
+    if isfilled and av:
         fillboundary(bmp,
             fillpolydata(av,
                 getmaxx(bmp),
-- 
2.43.0


From 673c4332a037a32bbfa0f90513de694c22529728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 47/65] fix: tetrahedron and hexahedron faces turned inside out
 (hidden faces were drawn, front ones not)

---
 pythonbmp/solids3D.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..b4dc894 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -53,22 +53,22 @@ def getshapesidedict() -> dict:
         dictionary of side or polygon
         definitions for basic solids
     """
-    return {"tetrahedra":((2, 1, 0),
-                          (2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1)),
+    return {"tetrahedra":((0, 1, 2),
+                          (1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3)),
                   "cube":((1, 2, 3, 0),
                           (5, 6, 7, 4),
                           (0, 3, 6, 5),
                           (4, 7, 2, 1),
                           (4, 1, 0, 5),
                           (2, 7, 6, 3)),
-             "hexahedra":((2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1),
-                          (1, 4, 2),
-                          (2, 4, 0),
-                          (1, 0, 4)),
+             "hexahedra":((1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3),
+                          (2, 4, 1),
+                          (0, 4, 2),
+                          (4, 0, 1)),
              "octahedra":((1, 2, 0),
                           (4, 1, 0),
                           (3, 4, 0),
-- 
2.43.0


From 495af5605f3cf47901969f0ec2e85d2d90812fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 48/65] fix: sphere faces turned inside out

---
 pythonbmp/solids3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index b4dc894..d8da1c7 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -542,8 +542,8 @@ def genspheresurfaces(
     i = 0
     for i in range(lpts):
         j = 0 if i == maxp else i + 1
-        surf += [[northpole, npts[j], npts[i]],
-                 [southpole, spts[i], spts[j]]]
+        surf += [[northpole, npts[i], npts[j]],
+                 [southpole, spts[j], spts[i]]]
     if levels > 2:
         mxlv = levels - 1
         for k in range(1, mxlv):
@@ -555,9 +555,9 @@ def genspheresurfaces(
             i = 0
             for i in range(lpts):
                 j = 0 if i == maxp else i + 1
-                surf += [[adjpts[j % maxadjpts],
-                          adjpts[i % maxadjpts],
-                          pts[i], pts[j]]]
+                surf += [[adjpts[i % maxadjpts],
+                          adjpts[j % maxadjpts],
+                          pts[j], pts[i]]]
     return surf
 
 
-- 
2.43.0


From e9f9b4c0117bf1e3c81d43d70428e0e4560e162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 49/65] fix: south pole of a sphere ignored its centre

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index d8da1c7..86cfbd4 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -480,7 +480,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From 54e824ec00024ebba93ae98a27b551a68dacd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 50/65] fix: tetrahedron, hexahedron and octahedron with sides
 of the stated length

---
 pythonbmp/solids3D.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 86cfbd4..07d3970 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -97,9 +97,9 @@ def tetrahedravert(x: float
     x_sqr = x**2
     halfx= x / 2
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, sqrt(3 / 8 * x_sqr)]]
+            [halfx, sqrt(x_sqr / 12), sqrt(2 / 3 * x_sqr)]]
 
 
 def cubevert(x: float
@@ -144,12 +144,13 @@ def hexahedravert(x: float
     """
     x_sqr = x**2
     halfx= x / 2
-    z = sqrt(3 / 8 * x_sqr)
+    y = sqrt(x_sqr / 12)
+    z = sqrt(2 / 3 * x_sqr)
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, z],
-            [halfx, halfx, -z]]
+            [halfx, y, z],
+            [halfx, y, -z]]
 
 
 def octahedravert(x: float
@@ -168,12 +169,13 @@ def octahedravert(x: float
               z: float)
     """
     halfx = x / 2
-    return [[halfx, halfx, halfx],
+    z = sqrt(x**2 / 2)
+    return [[halfx, halfx, z],
             [0, 0, 0],
             [x, 0, 0],
             [x, x, 0],
             [0, x, 0],
-            [halfx, halfx, -halfx]]
+            [halfx, halfx, -z]]
 
 
 def decahedvertandsurface(
-- 
2.43.0


From 4371f0da965e3672b864d7e0e8ae6af4f78fd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 51/65] fix: icosahedron within a sphere of the stated radius

---
 pythonbmp/solids3D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 07d3970..68c8936 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -234,12 +234,13 @@ def icosahedvertandsurface(
               y: float,
               z: float)
     """
+    r = 2 * x / sqrt(5)
     pts = floatregpolygonvert(
-                0, 0, x, 5, 0)
+                0, 0, r, 5, 0)
     pts1 = floatregpolygonvert(
-                0, 0, x, 5, 36)
-    z = sqrt((dist(pts[0], pts[1]) ** 2 - x**2))
-    z1 = 2 * x - z
+                0, 0, r, 5, 36)
+    z = sqrt((dist(pts[0], pts[1]) ** 2 - r**2))
+    z1 = r + z
     return [[[0, 0, -z]] + \
              adddimz(pts, 0) + \
              adddimz(pts1, z1 - z) + \
-- 
2.43.0


From b29e8fb6f47060501e41af9633cc42e9bae5e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 52/65] fix: surface plot when the step does not divide the
 width

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 68c8936..42708d7 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -708,7 +708,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From 06c3bda5b72841a8263b9833dc9e4bb93feb781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 53/65] fix: negative brightness of a face turned right away

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 388222b..f139bbb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6958,7 +6958,7 @@ def plotpolyfillist(
     for i, poly in enumerate(polylist):
         c = (
             colormix(
-                int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, RGBfactors
+                max(0, int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127), RGBfactors
             )
             if normlist[i] != [0, 0, 0]
             else colormix(127, RGBfactors)
-- 
2.43.0


From 7d718c9533907eb2a83aa93fd4c2cb17e16fb44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 54/65] fix: scatter points beyond the limits of the chart were
 painted at a corner of the bitmap

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f139bbb..4acb2ac 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7388,6 +7388,8 @@ def XYscatterplot(
         r = v[2]
         w = userdef2Dcooordsys2screenxy(
                 v[0], v[1], XYcoordinfo)
+        if w == [-1, -1]:
+            continue
         if r>1:
             circlevec(bmp, w,
                 setmax(r, 5), v[3], v[4])
-- 
2.43.0


From 481ebe4d7d714b81847996a396dde07c33b3c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 55/65] fix: regression line of a scatter plot started at a
 corner of the bitmap when an end was beyond the limits

---
 pythonbmp/BITMAPlib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4acb2ac..093aa8a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7406,12 +7406,18 @@ def XYscatterplot(
                 xmin, ymin, XYcoordinfo)
         w = userdef2Dcooordsys2screenxy(
                 xmax, ymax, XYcoordinfo)
+        if u == [-1, -1]:
+            ymin = XYcoordinfo[5][1]
+            xmin = (ymin - b) / m
+            u = userdef2Dcooordsys2screenxy(
+                    xmin, ymin, XYcoordinfo)
         if w == [-1, -1]:
             ymax = XYcoordinfo[5][1]
             xmax = (ymax - b) / m
             w = userdef2Dcooordsys2screenxy(
                     xmax, ymax, XYcoordinfo)
-        linevec(bmp, u, w, reglinecolor)
+        if [-1, -1] not in (u, w):
+            linevec(bmp, u, w, reglinecolor)
 
 
 def getneighborcolorlist(
-- 
2.43.0


From 5e778eed50c0caa6b3fe3a300cf9292f5ba3b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 56/65] fix: fraction of an elapsed time lost its leading zeros

---
 pythonbmp/proctimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/proctimer.py b/pythonbmp/proctimer.py
index 4d7a0f0..079615f 100644
--- a/pythonbmp/proctimer.py
+++ b/pythonbmp/proctimer.py
@@ -51,7 +51,7 @@ def hhmmsselaspedtime(inittime: int
         ((f'{str(hrs).zfill(2)}:' + str(mins).zfill(2)) + ':')
         + str(secs).zfill(2)
         + '.'
-    ) + str(ns)
+    ) + str(ns).zfill(9)
 
 
 def functimer(func):
-- 
2.43.0


From 34a0b4a7989096be30f02f09b804325a5aa94558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 57/65] fix: orthogonal vectors were only recognised when each
 product of components is zero

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..4c7e22d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -633,7 +633,7 @@ def isorthogonal(
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From dea3bd0d19e4f51c8b4ce86141b2a35c61ab86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 58/65] fix: polar, spherical and cylindrical coordinates lost
 the quadrant, failed for x = 0, and the cylindrical radius included z

---
 pythonbmp/mathlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 4c7e22d..2f876cb 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -20,6 +20,7 @@ from math import(
     asin,
     acos,
     atan,
+    atan2,
     cos,
     cosh,
     degrees,
@@ -886,7 +887,7 @@ def rect2sphericalcoord3D(
         phi: float]
     """
     p = vmag(v)
-    return [p, atan(v[1] / v[0]),
+    return [p, atan2(v[1], v[0]),
                acos(v[2] / p)]
 
 
@@ -938,8 +939,8 @@ def rect2cylindricalcoord3D(
              angle: float,
              z: Number]
     """
-    return [vmag(v),
-            atan(v[1] / v[0]),
+    return [vmag(v[:2]),
+            atan2(v[1], v[0]),
             v[2]]
 
 
@@ -998,7 +999,7 @@ def rect2polarcoord2D(
     Returns:
         [magnitude: float, angle: float]
     """
-    return [vmag(v), atan(v[1] / v[0])]
+    return [vmag(v), atan2(v[1], v[0])]
 
 
 def polarcoordangle2D(v:list) -> float:
-- 
2.43.0


From c69a643def55f40d72e714ab3cb4b1325eee8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 59/65] fix: fractals with more than 255 iterations failed on
 8-bit bitmaps

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 093aa8a..195b6a1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9287,7 +9287,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = int(c)
+            bmp[_8bmofhd(bmp, x, y)] = int(c) & 0xff
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9345,7 +9345,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            bmp[_8bmofhd(bmp, x, y)] = v & 0xff
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From e04054f47c487e85ef0885aba2ed732b7f28a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 60/65] fix: X11 tables disagreed on the colours aqua (HSL) and
 darkblue (factors)

---
 pythonbmp/X11colordict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index c68dbfd..2139f25 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -7,7 +7,7 @@ def getX11colorname2HSLdict() -> dict:
 'antiquewhite2': (33, 100, 93),
 'antiquewhite3': (34, 50, 87),
 'antiquewhite4': (33, 22, 75),
-'aqua': (171, 85, 50),
+'aqua': (180, 100, 50),
 'aquamarine': (180, 100, 50),
 'aquamarine1': (160, 100, 75),
 'aquamarine2': (160, 100, 75),
@@ -1484,7 +1484,7 @@ def getX11RGBfactors() -> dict:
 'darkslategrey': [0.184314, 0.309804, 0.309804],
 'darkturquoise': [0.000000, 0.807843, 0.819608],
 'darkviolet': [0.580392, 0.000000, 0.827451],
-'darkblue': [0.721569, 0.525490, 0.043137],
+'darkblue': [0.000000, 0.000000, 0.545098],
 'darkgoldenrod1': [1.000000, 0.725490, 0.058824],
 'darkgoldenrod2': [0.933333, 0.678431, 0.054902],
 'darkgoldenrod3': [0.803922, 0.584314, 0.047059],
-- 
2.43.0


From 9dbbd22e4f434b1ccd700f22adc6d11e9f5dabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 61/65] fix: the luminosity range midasc was stored under a
 name with a blank

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index b0c657c..bde476b 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -51,7 +51,7 @@ def getdefaultlumrange() -> dict:
     return {'maxdesc': [255, 0],
              'maxasc': [0, 255],
             'middesc': [192, 64],
-            ' midasc': [64, 192],
+            'midasc': [64, 192],
           'upperdesc': [255, 128],
            'upperasc': [128, 255],
           'lowerdesc': [128, 0],
-- 
2.43.0


From a33554b55fdde07e253aa0e0f51f0db53c86c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 62/65] fix: flipping a circle of a 1 or 4 bit bitmap about its
 diagonal left out the last pixel of every row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 195b6a1..4566b81 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2791,7 +2791,7 @@ def flipXYcircregion(bmp: array,
         n = flipXY(bmp)
         for (v0, v1) in itercirclepartlineedge(r):
             for dy in mirror(0, v1):
-                for dx in range(-v0, v0):
+                for dx in range(-v0, v0 + 1):
                     plotxybit(bmp, x + dx, y + dy,
                         getxybit(n, y + dx, x + dy))
     else:
-- 
2.43.0


From 8d094c240a914c35df46fd3a98d7ef1f43468b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 63/65] fix: exchanging colours with a point outside of the
 bitmap raised or painted other colours

---
 pythonbmp/BITMAPlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4566b81..bf98523 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1939,10 +1939,11 @@ def swapcolors(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
-    c = getxybitvec(bmp, p1)
-    intplotvecxypoint(bmp, p1,
-        getxybitvec(bmp, p2))
-    intplotvecxypoint(bmp, p2, c)
+    if listinBMPrecbnd(bmp, [p1, p2]):
+        c = getxybitvec(bmp, p1)
+        intplotvecxypoint(bmp, p1,
+            getxybitvec(bmp, p2))
+        intplotvecxypoint(bmp, p2, c)
 
 
 def line(bmp: array,
-- 
2.43.0


From 165fa9e8c1cb618fbdca511021163f998ab9709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 64/65] fix: mirroring a corner of a circle in a 1 or 4 bit
 bitmap was rejected and done by half

---
 pythonbmp/BITMAPlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index bf98523..8b6a596 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3050,6 +3050,7 @@ def mirrorbottomincircregion(
         bmp, x, y, r, 'B')
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrortopleftincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3069,6 +3070,7 @@ def mirrortopleftincircregion(
     mirrortopincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrortoprightincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3087,6 +3089,7 @@ def mirrortoprightincircregion(
     mirrortopincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrorbottomleftincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3105,6 +3108,7 @@ def mirrorbottomleftincircregion(
     mirrorbottomincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrorbottomrightincircregion(
         bmp: array,
         x: int, y: int, r: int):
-- 
2.43.0


From c18b09d37929e8317566a9729952ee6d6d1965f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 65/65] fix: plotting a bitmap as text left out the bottom row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8b6a596..544cb68 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12356,7 +12356,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0

