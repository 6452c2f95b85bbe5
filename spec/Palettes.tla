------------------------------ MODULE Palettes ------------------------------
(* The palettes that new bitmaps of 1, 4 and 8 bits start with, as 65536 R + 256 G + B. *)
EXTENDS Integers, Sequences
Pal1 == <<
  0, 16777215>>
Pal4 == <<
  0, 8388608, 32768, 8421376, 128, 8388736, 32896, 8421504, 12632256, 16711680, 65280, 16776960,
  255, 16711935, 65535, 16777215>>
Pal8 == <<
  0, 8388608, 32768, 8421376, 128, 8388736, 32896, 12632256, 12639424, 10930928, 4202496, 6299648,
  8396800, 10493952, 12591104, 14688256, 16384, 2113536, 4210688, 6307840, 8404992, 10502144, 12599296, 14696448,
  24576, 2121728, 4218880, 6316032, 8413184, 10510336, 12607488, 14704640, 32768, 2129920, 4227072, 6324224,
  8421376, 10518528, 12615680, 14712832, 40960, 2138112, 4235264, 6332416, 8429568, 10526720, 12623872, 14721024,
  49152, 2146304, 4243456, 6340608, 8437760, 10534912, 12632064, 14729216, 57344, 2154496, 4251648, 6348800,
  8445952, 10543104, 12640256, 14737408, 64, 2097216, 4194368, 6291520, 8388672, 10485824, 12582976, 14680128,
  8256, 2105408, 4202560, 6299712, 8396864, 10494016, 12591168, 14688320, 16448, 2113600, 4210752, 6307904,
  8405056, 10502208, 12599360, 14696512, 24640, 2121792, 4218944, 6316096, 8413248, 10510400, 12607552, 14704704,
  32832, 2129984, 4227136, 6324288, 8421440, 10518592, 12615744, 14712896, 41024, 2138176, 4235328, 6332480,
  8429632, 10526784, 12623936, 14721088, 49216, 2146368, 4243520, 6340672, 8437824, 10534976, 12632128, 14729280,
  57408, 2154560, 4251712, 6348864, 8446016, 10543168, 12640320, 14737472, 128, 2097280, 4194432, 6291584,
  8388736, 10485888, 12583040, 14680192, 8320, 2105472, 4202624, 6299776, 8396928, 10494080, 12591232, 14688384,
  16512, 2113664, 4210816, 6307968, 8405120, 10502272, 12599424, 14696576, 24704, 2121856, 4219008, 6316160,
  8413312, 10510464, 12607616, 14704768, 32896, 2130048, 4227200, 6324352, 8421504, 10518656, 12615808, 14712960,
  41088, 2138240, 4235392, 6332544, 8429696, 10526848, 12624000, 14721152, 49280, 2146432, 4243584, 6340736,
  8437888, 10535040, 12632192, 14729344, 57472, 2154624, 4251776, 6348928, 8446080, 10543232, 12640384, 14737536,
  192, 2097344, 4194496, 6291648, 8388800, 10485952, 12583104, 14680256, 8384, 2105536, 4202688, 6299840,
  8396992, 10494144, 12591296, 14688448, 16576, 2113728, 4210880, 6308032, 8405184, 10502336, 12599488, 14696640,
  24768, 2121920, 4219072, 6316224, 8413376, 10510528, 12607680, 14704832, 32960, 2130112, 4227264, 6324416,
  8421568, 10518720, 12615872, 14713024, 41152, 2138304, 4235456, 6332608, 8429760, 10526912, 12624064, 14721216,
  49344, 2146496, 4243648, 6340800, 8437952, 10535104, 16776176, 10526884, 8421504, 16711680, 65280, 16776960,
  255, 16711935, 65535, 16777215>>
DefaultPal(b) == CASE b = 1 -> Pal1 [] b = 4 -> Pal4 [] b = 8 -> Pal8 [] OTHER -> <<>>
=============================================================================
