// EN 50067:1998 Annex E code table (independent copy used as the oracle), UTF-8.
#pragma once
static const char* const spec_charset[256] = {
" "," "," "," "," "," "," "," "," "," ","\n"," "," ","\r"," "," ",
" "," "," "," "," "," "," "," "," "," "," "," "," "," "," ","\xC2\xAD",
" ","!","\"","#","\xC2\xA4","%","&","'","(",")","*","+",",","-",".","/",
"0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
"@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
"P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","\xE2\x80\x95","_",
"\xE2\x80\x96","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
"p","q","r","s","t","u","v","w","x","y","z","{","|","}","\xC2\xAF"," ",
"\u00E1","\u00E0","\u00E9","\u00E8","\u00ED","\u00EC","\u00F3","\u00F2","\u00FA","\u00F9","\u00D1","\u00C7","\u015E","\u03B2","\u00A1","\u0132",
"\u00E2","\u00E4","\u00EA","\u00EB","\u00EE","\u00EF","\u00F4","\u00F6","\u00FB","\u00FC","\u00F1","\u00E7","\u015F","\u01E7","\u0131","\u0133",
"\u00AA","\u03B1","\u00A9","\u2030","\u01E6","\u011B","\u0148","\u0151","\u03C0","\u20AC","\u00A3","$","\u2190","\u2191","\u2192","\u2193",
"\u00BA","\u00B9","\u00B2","\u00B3","\u00B1","\u0130","\u0144","\u0171","\u00B5","\u00BF","\u00F7","\u00B0","\u00BC","\u00BD","\u00BE","\u00A7",
"\u00C1","\u00C0","\u00C9","\u00C8","\u00CD","\u00CC","\u00D3","\u00D2","\u00DA","\u00D9","\u0158","\u010C","\u0160","\u017D","\u00D0","\u013F",
"\u00C2","\u00C4","\u00CA","\u00CB","\u00CE","\u00CF","\u00D4","\u00D6","\u00DB","\u00DC","\u0159","\u010D","\u0161","\u017E","\u0111","\u0140",
"\u00C3","\u00C5","\u00C6","\u0152","\u0177","\u00DD","\u00D5","\u00D8","\u00DE","\u014A","\u0154","\u0106","\u015A","\u0179","\u0166","\u00F0",
"\u00E3","\u00E5","\u00E6","\u0153","\u0175","\u00FD","\u00F5","\u00F8","\u00FE","\u014B","\u0155","\u0107","\u015B","\u017A","\u0167"," "};
