from meta import prop, B

G = ['inputs', 'histories']
PT = 'pythonbmp/primitives2D.py'

prop('C01', 'A new bitmap has the requested size and depth, is blank, and is well formed',
     'A bitmap created with a width, a height and a depth of 1, 4, 8 or 24 bits reports exactly these, has every pixel zero and the default palette of its depth, '
     'and its header fields (signature, file size, data offset, width, height, bits) describe exactly the bytes it has, for sizes beyond 8 and 16 bits too. '
     'A bitmap created from another one (same dimensions in a new depth, or same header and palette) is blank, independent of it and leaves it unchanged.',
     G, 'all widths, heights and depths, and all histories of creating, copying and reading bitmaps',
     'the tests create a handful of fixed sizes and look at a few header bytes; the padding, the byte carries of multi-byte fields and the independence of copies hold for all sizes or not at all',
     [B, 'pythonbmp/inttools.py', 'pythonbmp/colors.py'],
     [('newBMP, _bmmeta, _setmeta, _getbmflsz', B), ('readint, writeint', 'pythonbmp/inttools.py'), ('CopyBMPxydim2newBMP, copyBMPhdr', B)],
     ['the bytes of the returned bitmap', 'getmaxx, getmaxy, getmaxxy, getmaxxyandbits, getmaxcolors, bottomrightcoord, centercoord, getBMPimgbytes, getallRGBpal'])
prop('C02', 'Saving and loading returns the identical bitmap',
     'A file written with save holds exactly the bitmap, and loading a file returns exactly what is in it: every pixel, the palette, and the header fields other programs wrote, for every depth and size, after any number of save, load and overwrite steps. '
     'Saving and loading change neither the bitmap nor other files; loading a missing file or a file that is not a bitmap reports the error and yields no bitmap.',
     G, 'all bitmaps (also with foreign header fields) and all histories of save, load, overwrite and change',
     'the tests load the shipped sample images only and compare their own output files; they do not reach all sizes, overwritten longer files or foreign headers',
     [B, 'pythonbmp/fileutils.py'], [('saveBMP, loadBMP', B), ('checklink', 'pythonbmp/fileutils.py')],
     ['bytes of the saved file', 'bytes of the loaded bitmap', 'printed error message'])
prop('C03', 'Writing a pixel changes exactly that pixel and reading returns it',
     'Setting a pixel (by colour number or by RGB value, with scalar or vector coordinates) changes that pixel alone, to the colour reduced to the depth of the bitmap or to the nearest palette entry, and reading it back returns it; exchanging the colours of two pixels changes exactly these two. '
     'A coordinate outside of the bitmap changes nothing when written and reads as -1 (colour) or as an empty list (RGB).',
     G, 'all bitmaps of all depths, all coordinates inside and outside, all colours, all orders of reads and writes',
     'the tests write a few pixels of one or two bitmaps; sub-byte packing, row padding and edges depend on every residue of x and of the width',
     [B], [('plotxybit, getxybit, plotRGBxybit, getRGBxybit and their vector forms', B), ('swapcolors', B), ('isinBMPrectbnd, listinBMPrecbnd', B), ('matchRGBtopal', 'pythonbmp/colors.py')],
     ['all pixels of the bitmap after each call', 'returned colours'])
prop('C04', 'Lines, polylines, rectangles and grids paint exactly their points',
     'A line paints exactly one pixel per step of its longer axis from one end to the other, both end points included, with the slope of the line, in the given colour and nothing else; ends outside of the bitmap are first moved to its border, and horizontal and vertical spans are clipped to it. '
     'Polylines, polygons, rectangles and grids paint exactly the union of their lines, for every depth.',
     G, 'all end points inside and outside of the bitmap, all directions, all depths and widths, all orders of drawing',
     'the tests compare a few reference pictures; spans are written in whole bytes, so every residue of both ends and of the row width is a case of its own',
     [B, PT], [('line, horiline, vertline, linevec, intlinevec', B), ('iterline', PT), ('plotlines, plotpoly, plotpolylist, rectangle, xygrid, xygridvec, vertlinevert, horilinevert', B)],
     ['all pixels of the bitmap after each call'])
prop('C05', 'Filled rectangles, parallelograms and polygons cover exactly their area',
     'A filled rectangle colours exactly the pixels between its corners, whatever their order; a filled polygon colours in every row exactly the pixels from the leftmost to the rightmost point of its boundary, boundary included; a filled parallelogram exactly the union of its side to side lines. '
     'Regions that leave the bitmap are rejected with the region message and change nothing.',
     G, 'all corner points and vertices, all depths, all colours',
     'the tests fill a few shapes of one size; byte alignment of both ends, single column and single row shapes and concave polygons are not enumerated',
     [B, PT], [('filledrect, filledparallelogram, plotpolyfill', B), ('iterparallelogram, fillboundary', B)],
     ['all pixels of the bitmap after each call', 'printed error message'])
prop('C06', 'Circles, discs, round pens and thick lines paint exactly their points',
     'A circle paints exactly the points whose distance is the radius after rounding (four-fold symmetric, two octants), a filled circle exactly the rows between its left and right boundary, and thick lines, polygons and circles exactly the union of the discs along the thin figure. '
     'What lies outside of the bitmap is clipped: nothing wraps to another row and the bitmap keeps its size.',
     G, 'all centres inside and outside, all radii, all depths, all pen sizes',
     'the tests draw a few circles inside of the bitmap; clipping at every side and every byte alignment is not reached',
     [B, PT], [('circle, filledcircle, circlevec, thickcircle, roundpen, plotxypointlist, thickroundline, thickplotpoly, plotlines', B), ('itercircle, itercirclepart, itercirclepartlineedge', PT)],
     ['all pixels of the bitmap after each call'])
prop('C07', 'Ellipses and filled ellipses paint exactly their points',
     'An ellipse paints exactly the points of the integer midpoint ellipse of its two semi axes, mirrored into four quadrants, and a filled ellipse exactly the rows between its left and right boundary. '
     'What lies outside of the bitmap is clipped: nothing wraps to another row and the bitmap keeps its size.',
     G, 'all centres inside and outside, all pairs of semi axes, all depths',
     'the tests draw a few ellipses inside of the bitmap',
     [B, PT], [('ellipse, filledellipse', B), ('iterellipsepart', PT)], ['all pixels of the bitmap after each call'])
prop('C08', 'Whole bitmap flips, mirrors, inversion and turning move every pixel right',
     'Flipping, mirroring (to a side or to a corner) and inverting a bitmap put at every pixel exactly the colour its mirror image (or its complement) had, for every depth and every odd or even size; '
     'turning it (flipXY) returns a bitmap with width and height exchanged that holds every pixel once. Flips and inversion applied twice give the bitmap back; the header and the palette stay as they were.',
     G, 'all bitmaps of all depths and sizes, all sequences of transformations',
     'the tests transform one or two pictures of one size; odd widths, padding bytes and packed pixels are cases of their own',
     [B, 'pythonbmp/bufferflip.py'],
     [('flipvertical, fliphorizontal, mirrortop ... mirrorbottomright, invertimagebits, flipXY', B), ('flipbuf, flipbuf24, flip buffers', 'pythonbmp/bufferflip.py')],
     ['all pixels, palette and header after each call'])
prop('C09', 'Transforming a rectangular region touches only that region',
     'Flipping, mirroring or inverting a region works on exactly the pixels between the two corners, in whatever order the corners are given, both included, and leaves every other pixel as it was, for every depth and every alignment. '
     'A region that is not inside of the bitmap is rejected with the region message and changes nothing.',
     G, 'all bitmaps, all corner pairs inside and outside, all sequences of operations',
     'the tests use one aligned region of a few pictures; packed pixels make every residue of both corners a case of its own',
     [B], [('flipverticalregion ... mirrorbottomrightinregion, invertregion', B), ('swapcolors', B), ('entirerectisinboundary', 'pythonbmp/paramchecks.py')],
     ['all pixels after each call', 'printed error message'])
prop('C10', 'Operations on circular regions touch only the circle',
     'Flipping, mirroring, turning, copying, inverting, outlining, magnifying and pixelizing a circular region change only pixels of that disc, to exactly the transformed values. '
     'Circles that are not inside of the bitmap are rejected with the region message and change nothing, or are clipped where the operation is defined to clip; the bitmap never changes its size.',
     G, 'all bitmaps of all depths, all centres and radii inside and outside, all sequences of operations',
     'the tests use one circle inside of one picture of one depth',
     [B, PT], [('flipvertcircregion ... pixelizenxncircregion, copycircregion', B), ('itercirclepartlineedge, itercirclepartvertlineedge', PT), ('entirecircleisinboundary', 'pythonbmp/paramchecks.py')],
     ['all pixels after each call', 'printed error message'])
prop('C11', 'Copy, paste, crop and convert keep every pixel',
     'The buffer copied from a region describes exactly its depth, size and pixels; pasting it at a position of any bitmap of that depth puts exactly these pixels there and changes nothing else; crop and conversion of a buffer return a bitmap of exactly that size with exactly these pixels and leave the source alone. '
     'Buffers of another depth and places outside of the bitmap are rejected with their message and change nothing.',
     G, 'all regions, all depths and alignments, all histories of copies and pastes among several bitmaps',
     'the tests copy one aligned region; the last partial byte of a packed row, corner order and rejected pastes are not reached',
     [B], [('copyrect, pasterect, crop, convertselection2BMP, itercopyrect, vertBMPbitBLTget', B), ('BMPbitBLTput, BMPbitBLTget', B)],
     ['buffer bytes', 'all pixels of all bitmaps after each call', 'printed error message'])
prop('C12', 'Enlarging repeats pixels and reducing averages blocks exactly',
     'Enlarging n times gives a bitmap n times as wide and high in which every pixel is an n by n block; reducing n times gives one with the rounded mean colour of every n by n block; pixelizing replaces every block by its mean. '
     'The source stays as it was; reducing an enlarged bitmap gives the bitmap back.',
     G, 'all bitmaps, all depths, all factors, sizes that are no multiple of the factor included',
     'the tests resize two pictures by fixed factors',
     [B, 'pythonbmp/bufresize.py', 'pythonbmp/buffersplit.py'],
     [('resizeNtimesbigger, resizeNtimessmaller, pixelizenxn', B), ('resizesmaller24bitbuf, resizebiggerbuf', 'pythonbmp/bufresize.py'), ('altsplitbuf', 'pythonbmp/buffersplit.py')],
     ['size, pixels, palette of the returned bitmap', 'the source after each call'])
C = 'pythonbmp/colors.py'
prop('C13', 'Colour adjustments compute every pixel of their region and no other',
     'Monochrome filter, colour filter, brightness, threshold and gamma adjustment give every pixel of the image, rectangle or circle exactly the documented function of its old colour (rounded and limited to 0..255 per channel) and leave every other pixel alone; bitmaps that are not 24-bit and regions outside of the bitmap are rejected with their message and unchanged.',
     G, 'all 24-bit bitmaps, all regions, all parameters, repeated in all orders',
     'the tests adjust one picture with one parameter each; rounding, saturation, black and single column regions are not reached',
     [B, C], [('monofilterto24bitregion ... gammaadjto24bitimage, monocircle, colorfiltercircregion, thresholdadjcircregion, gammacorrectcircregion, brightnessadjcircregion', B), ('apply...BGRbuf functions', C)],
     ['all pixels after each call', 'printed error message'])
prop('C14', 'Gradients paint exactly their figure with the colours of the gradient',
     'Gradient rectangles, backgrounds, thick lines, circles, spheres, orbs, ellipses, polygons and brightness gradients change exactly the pixels of their figure or region, every row, column or layer with the colour (or the brightness factor) that lies at its position between the two ends of the gradient, on palette bitmaps with the nearest palette entry.',
     G, 'all figures inside and outside of the bitmap, all depths the operation supports, all gradients',
     'the tests compare a few reference pictures with one gradient each',
     [B, C], [('filledgradrect, filleddichromaticgradrect, gradthickroundline, gradcircle, orb, sphere, gradellipse, gradthickplotpoly, gradplotlines, gradvert', B), ('verticalbrightnessgradto24bitregion, horizontalbrightnessgradto24bitregion, vertbrightnessgrad2circregion, horibrightnessgrad2circregion', B), ('colormix, interpolateRGB', C)],
     ['all pixels after each call'])
prop('C15', 'Palette operations change exactly the palette entries they say',
     'Setting, copying, shifting and generating palettes change exactly the stated entries to the stated colours and no pixel; a palette of the wrong length changes nothing; shifting rotates the palette and a full cycle is the identity; palettes made of a histogram keep the most frequent colours that differ enough; colours are matched to an equal entry or else to the nearest one.',
     G, 'all palettes of 1, 4 and 8 bit bitmaps, all parameters, all sequences of palette operations',
     'the tests shift one palette of one picture',
     [B, C, 'pythonbmp/bmppal.py'], [('setRGBpal, getRGBpal, setbmppal..., palshift, itercolorcycle, copyRGBpal, setBMP2monochrome, setBMP2dichromaticpal, newBMPwithPAL, makenewpalfromcolorhist, setnewpalfromsourcebmp, adjustcolordicttopal', B), ('matchRGBtopal, monochromepal, monoinverseshiftableBGRApal, dichromaticpal', C)],
     ['palette and pixels after each call', 'returned palettes'])
prop('C16', 'Depth changes and pixel iteration visit every pixel with its colour once',
     'Upgrading to 24 bits keeps size and the colour of every pixel; reducing the depth gives every pixel the nearest colour of the new palette; the colour histogram counts every pixel once; iterating over an image, a region or the neighbours of a pixel yields every pixel once with its colour; the source bitmap stays unchanged.',
     G, 'all bitmaps of all depths and sizes',
     'the tests reduce one picture; partial bytes at the ends of rows and borders are not reached',
     [B, 'pythonbmp/dicttools.py', PT], [('upgradeto24bitimage, convertbufto24bit, colorhistogram, iterimageRGB, iterimagecolor, getneighborcolorlist, itergetcolorfromrectregion, reduce24bitimagebits, setBMPimgbytes', B), ('dict2descorderlist', 'pythonbmp/dicttools.py'), ('itergetneighbors', PT)],
     ['returned sequences', 'all pixels and palette of the new bitmap'])
PC = 'pythonbmp/paramchecks.py'
prop('C17', 'A rejected call changes nothing and says why',
     'Operations that work only at certain depths, on integer coordinates, or on regions inside of the bitmap check these things, in this order, before they do anything: a call that fails a check prints exactly the message of the first failed check and leaves every byte of the bitmap as it was; a call that passes is carried out. No such call raises an exception.',
     G, 'all guarded operations, all depths, all coordinates at and near the borders, arguments of any type',
     'the tests make no rejected call; off-by-one bounds and a write before the check are invisible to them',
     [PC, B], [('func24bitonly..., entirerectinboundary, entirecircleinboundary, intcircleparam...', PC), ('all decorated operations', B)],
     ['the whole bitmap after each call', 'printed error messages'])
prop('C20', 'Searching, comparing and cropping depend on the pixels alone and are exact',
     'Edges are exactly the first neighbours whose colour is farther away than the threshold; a colour region is exactly the pixels nearer than the threshold; the difference of two files is the bitwise exclusive or (the common part the and) of every pixel with the palette of the first, and files of different size or depth are reported and write nothing; '
     'cropped and auto-cropped files hold exactly the stated rectangle; a circular part copied from one bitmap appears in another one exactly, or is rejected with its message. Inputs stay unchanged.',
     G, 'all bitmaps and pairs of bitmaps of all depths, all thresholds, missing files included',
     'the tests compare a few reference pictures with one threshold',
     [B, PT], [('getimagedgevert, getimageregionbyRGB, plotimgedges, imgregionbyRGB2file, autocropimg2file, imagediff, showsimilarparts, imagecomp, cropBMPandsave, copycircregion2buf, pastecirularbuf', B), ('itergetneighbors, rectboundarycoords', PT), ('checklink, checklinks', 'pythonbmp/fileutils.py')],
     ['returned lists', 'written files', 'all bitmaps and files after each call', 'printed error messages'])
prop('C21', 'Erasing lines and outlining change exactly the stated pixels',
     'Erasing every n-th line writes the bit pattern to exactly the lines counted from the top of the bitmap or region whose number leaves the stated remainder, within exactly the columns of the bitmap, region or circle; outlining replaces every row of the region by its exclusive or with the row above and the first row by zero. Every other pixel stays as it was, for every depth and alignment; regions outside are rejected.',
     G, 'all bitmaps of all depths, all regions and circles, all line counts and patterns',
     'the tests erase lines of one aligned picture',
     [B, 'pythonbmp/mathlib.py'], [('erasealternatehorizontallines, erasealternatehorizontallinesinregion, erasealternatehorizontallinesincircregion, eraseeverynth..., outline, outlineregion', B), ('xorvect', 'pythonbmp/mathlib.py')],
     ['all pixels after each call', 'printed error message'])
TX = 'pythonbmp/fonts.py'
prop('C18', 'Text appears with exactly the glyphs of its font',
     'A string puts exactly the set bits of the glyphs of its letters on the bitmap: every bit a cell of the given scale (a square or a dot, less the free pixels), every letter one advance after the one before, line breaks and tabs as documented, mirrored, upside down, sideways, vertical and leaning variants being exactly the corresponding arrangement; rows cycle through a list of colours. Nothing else changes. Text written to a file yields a new bitmap of exactly the size of the text.',
     G, 'all fonts, strings (with line breaks and tabs), places inside and outside, scales, gaps, colours and depths',
     'the tests compare one picture of one fixed string for some of the functions',
     [B, TX, 'pythonbmp/chartools.py', 'pythonbmp/textgraphics.py'],
     [('plot8bitpatternwithfn and its variants, plotstringfunc, plotstringfunc2file, plotstringverticalwithfn, plotstringsidewayfn', B), ('getcharfont', TX), ('enumletters, enumreverseletters', 'pythonbmp/chartools.py'), ('computetextrowandcolcnt, plot8bitpatternastext', 'pythonbmp/textgraphics.py')],
     ['all pixels of the bitmap after each call', 'bytes of the written file', 'returned text'])
prop('C19', 'A file operation writes exactly the changed bitmap and nothing else',
     'An operation from one file to another reads the first, changes the bitmap exactly as the operation in memory of the same name does (palettes being adjusted instead of pixels below 24 bits), and writes the second; the first file stays as it was unless it is also the second, no other file changes, and the written file is well formed. A missing file, a depth the operation does not support or a region outside of the bitmap is reported with its message.',
     G, 'all file operations, all files of all depths (also written by other programs), source and target equal or not',
     'the tests compare one output picture per function; the source file, regions outside, other depths and equal source and target are not looked at',
     [B, 'pythonbmp/fileutils.py'], [('*2file functions, _usefn*, _usebyref*, _use24b*, _useclradjfn', B), ('checklink, checklinks', 'pythonbmp/fileutils.py'), ('monochromepal, colorfilterpal, brightnessadjpal, thresholdadjpal, gammaadjpal', 'pythonbmp/bmppal.py')],
     ['bytes of all files after each call', 'printed error messages'])

FR = 'pythonbmp/fractals.py'
prop('C22', 'Fractals colour every pixel by the iteration of its own point',
     'Every pixel of the region gets exactly the colour that the number of steps after which the orbit of its point of the domain leaves the stated bound gives for the depth of the bitmap, for the Mandelbrot, Julia, Newton and all other escape-time families, for all parameters, domains and limits; pixels outside of the region keep theirs. The file variants write a new bitmap of the stated size and depth with exactly this picture.',
     G, 'all families, parameters, domains, regions of bitmaps of all depths, colour factors and numbers of iterations',
     'the tests compare one stored picture of some families with one parameter; other parameters, regions, domains and depths are not looked at',
     [B, FR], [('plotfractal, plotmultifractal, plotcomplexparfractal and the functions that call them, save*2file', B), ('iter* functions of the families', FR)],
     ['all pixels after each call', 'bytes of written files'])
prop('C23', 'Curves go exactly through the points of their equations',
     'The vertex lists of spirographs, Lissajous figures, involutes, epicycloids, hypotrochoids, flowers, squircles, superellipses, gears, Cornu spirals, hearts, eggs, regular polygons and spirals are the points of the defining equations, as many as stated; Bezier curves run from the first to the last control point, B-splines and rotated ellipses through the points of their equations; drawn curves, arcs, vectors, pie charts, Hilbert curves and Koch snowflakes paint exactly the pixels of these figures in exactly the stated colours and nothing else.',
     G, 'all parameters, angles, pens, colours and places inside and outside of bitmaps of all depths',
     'the tests compare two pictures of a Hilbert and a Koch curve; the other curves have no test',
     [B, PT, 'pythonbmp/charts.py', FR], [('iter* and *vert functions of curves', PT), ('squircle, drawvec, beziercurve, bspline, thickellipserot, gradthickellipserot, plotflower, plotfilledflower, drawarc, piechart, savehilbertcurve2file, savekochsnowflake2file', B), ('genpiechartdata', 'pythonbmp/charts.py'), ('hilbertvert, kochsnowflakevert', FR)],
     ['returned vertices', 'all pixels after each call', 'bytes of written files'])
SO = 'pythonbmp/solids3D.py'
prop('C24', 'Solids are closed, turned outward and shown as seen from the origin',
    'Tetrahedron, cube, hexahedron, octahedron and icosahedron have all sides of the stated length (radius), every edge between exactly two faces, and all faces turned outward; spheres, cylinders, cones, decahedra and surface plots consist of exactly the stated points and surfaces, around the stated centre; rotation, displacement and projection follow the equations of the stated angles; exactly the faces turned to the observer are drawn, in the order given, at the projected points, each filled in the colour of the angle between its normal and the line of sight and outlined as stated; faces partly outside of the bitmap are reported and not filled, and no other pixel changes.',
    G, 'all sizes, centres, steps, rotations, displacements, colour factors and places on bitmaps of all depths',
    'no test covers solids',
    [SO, B, 'pythonbmp/mathlib.py'], [('getshapesidedict, *vert, *vertandsurface, rotvec3D, perspective, gensides, surfacetest, polyboundary, fillpolydata', SO), ('plotpolyfillist, plot3d, plot3Dsolid', B), ('getnormvec, cosaffin', 'pythonbmp/mathlib.py')],
    ['returned vertices, surfaces and projections', 'all pixels after each call', 'printed error messages'])

prop('C25', 'Charts place axes, numbers, points and regression line where the data say',
    'A chart axis draws both axes, one tick and one number (first value plus multiples of the value step, right justified on the vertical axis) at every multiple of the stated distances from the origin up to the limits, and the grid where asked, and returns the coordinate system it has drawn; a scatter plot paints every data point within the limits at the place this system gives it, with its radius and colour, no point beyond them, and the least-squares line of all points between the limits (from where it crosses the top); values beyond the limits are reported; no other pixel changes.',
    G, 'all origins, distances, limits, values, colours and depths; all data sets',
    'no test covers charts',
    [B, 'pythonbmp/primitives2D.py', 'pythonbmp/mathlib.py'], [('XYaxis, XYscatterplot, numbervert, userdef2Dcooordsys2screenxy, plotvecxypoint', B), ('horizontalvert, verticalvert', 'pythonbmp/primitives2D.py'), ('LSMslope, LSMYint', 'pythonbmp/mathlib.py')],
    ['all pixels after each call', 'returned coordinate system and screen coordinates', 'printed error messages'])

prop('C26', 'The launcher opens the picture asked for, or else the latest match',
    'Started with the name of an existing file (or link), the mspaint launcher opens exactly that file (the target of the link) and prints its path; started with a pattern, or with nothing (*.bmp), it opens the most recently changed match in the current directory or any directory below it; where there is none it says so, opens nothing and exits with 1. On Android the file is made accessible, announced and opened. Saving a bitmap puts the directory of the launcher in front of the search path unless it is already there, once, and leaves the other entries in their order.',
    G, 'all trees of files, arguments, patterns and search paths',
    'no test starts the launcher or looks at the search path',
    ['mspaint.py', B], [('determine_file and the calls of xdg-open and am', 'mspaint.py'), ('ensurePaintWrapperInPath, saveBMP', B)],
    ['programs started by the launcher, with their arguments', 'exit code and output', 'file mode', 'environment variable PATH'])

prop('C27', 'Bytes, packed pixels and buffers keep their values',
    'Writing an integer stores exactly its bytes in little-endian order at the stated place and reading gives it back, for every size; packing and unpacking of pixels, flipping and enlarging of rows, conversion of packed rows to colours, splitting into interleaved parts and joining them are the stated rearrangements of pixels for every length and depth; image bytes read or written at an offset are exactly those bytes of the bitmap, offsets outside are rejected without any change; letters, bits, dictionaries and elapsed times are listed exactly and in order.',
    G, 'all buffers, lengths, depths, offsets and factors',
    'the tests call few of these functions, with one buffer each',
    ['pythonbmp/inttools.py', 'pythonbmp/bufresize.py', 'pythonbmp/bufferflip.py', 'pythonbmp/buffersplit.py', 'pythonbmp/colors.py', 'pythonbmp/chartools.py', 'pythonbmp/dicttools.py', 'pythonbmp/conditionaltools.py', 'pythonbmp/proctimer.py', B],
    [('readint, writeint, int2buf, buf2int', 'pythonbmp/inttools.py'), ('pack and unpack functions, resize*', 'pythonbmp/bufresize.py'), ('flipbuf and others', 'pythonbmp/bufferflip.py'), ('altsplitbuf*', 'pythonbmp/buffersplit.py'), ('BMPbitBLTput, BMPbitBLTget, convertbufto24bit', B)],
    ['returned values', 'buffers after the call', 'all pixels after each call', 'printed error messages'])

prop('C28', 'Attractors and iterated function systems follow their maps',
    'Every point of an attractor list is the image of the point before it under the map of that attractor with the given parameters, from the given start and in the stated number; histograms count every point exactly once, in the bin of its place between the extremes; the picture of an attractor shows exactly these counts scaled to the colours of the depth, in the stated size, in memory and in a file; an iterated function system yields only points reached by its maps, chosen with the stated probabilities, strictly inside of its region, and paints nothing else; the fern fills the place its maps define.',
    G, 'all parameters, starts, numbers of points, sizes and depths; all random choices',
    'the tests compare one picture of each attractor for one set of parameters; random pictures have no test',
    [FR, B, 'pythonbmp/mathlib.py'], [('*attractorlist, getIFSparams, iterIFS', FR), ('plotattractor, plotattractorcomplex, *attractor, save*attractor2file, IFS, fern, fern2file', B), ('histogram2D, histogram2Dcomplex, getdomainbounds, getcomplexdomainbounds', 'pythonbmp/mathlib.py')],
    ['returned points and counts', 'all pixels after each call', 'bytes of written files'])

prop('C29', 'The mathematics behind the pictures is correct',
    'Vector sums, products, rounding, clipping, means, deviations, least squares lines and correlation are those of their definitions; conversions between rectangular, polar, spherical and cylindrical coordinates describe the same point in every quadrant and on the axes; interpolation and its inverses, the smooth steps, cross and dot products, normal vectors and orthogonality follow their formulas; Fourier transforms are the sums they stand for, and the inverse sum; the method of Newton returns the step it reached and the number of steps, or nothing; random vectors stay within their limits; no function changes its arguments.',
    G, 'all finite numbers, lengths of lists and signs',
    'the tests check few of these functions, with one set of numbers each',
    ['pythonbmp/mathlib.py'], [('all public functions on numbers, vectors, lists of vectors and polynomials', 'pythonbmp/mathlib.py')],
    ['returned values', 'arguments after the call'])

prop('C30', 'Colour functions compute what they say and the colour tables agree',
    'Splitting a colour into its parts and joining them are inverse; mixtures, factors and luminosity, hue, saturation and lightness, grey values, gamma correction, brightness and thresholds of one colour or of a row of pixels follow their formulas and stay within 0 to 255; matching returns the first of the nearest palette entries; palettes of one or two colours, shifted or inverted, have the stated entries in the stated order; interpolation between colours meets both ends; the tables of colour names give the same colour as numbers, as hue and as factors.',
    G, 'all colours, factors, depths, exponents and limits; all random choices',
    'the tests check few of these functions, with a few colours each',
    ['pythonbmp/colors.py', 'pythonbmp/bmppal.py', 'pythonbmp/X11colordict.py', 'pythonbmp/XKCDcolordict.py', 'pythonbmp/colordict.py'],
    [('functions on colours, palettes and BGR buffers', 'pythonbmp/colors.py'), ('getX11*, getXKCD*, getcolorname*', 'pythonbmp/X11colordict.py')],
    ['returned values', 'buffers after the call'])

prop('C31', 'Points, neighbours, bounds and fractal values are enumerated exactly',
    'Walking a line yields neighbouring points from one end to the other and all of the line; walking a parallelogram two such lines side by side; the parts and the whole of circles and ellipses yield exactly the points of the figure, rows and columns of a quadrant once each; corners, sorted corners and bounding rectangles are those of the given points; the neighbours of a point are the up to eight points around it inside of the limits, each once; a point, list, circle or ellipse is inside of bounds exactly if all of it lies strictly between them; '
    'vertices of regular polygons, Hilbert curves, Koch curves and snowflakes lie where their construction puts them; the value of a point under every fractal function is the number of steps until it leaves, and a fractal over a region yields every point of it once with that value.',
    G, 'all points, radii, half axes, limits, depths of recursion and parameters',
    'the tests call none of these functions directly, apart from a few; the pictures they compare hold repeated and missing points alike',
    [PT, FR, 'pythonbmp/mathlib.py'], [('iter*, *vert, getneighborlist, isinrectbnd, entire*isinboundary, rectboundarycoords', PT), ('mandelbrot, julia and the others, iter*', FR)],
    ['returned points and values, in their order'])
