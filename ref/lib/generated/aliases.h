/* ANSI-C code produced by gperf version 3.1 */
/* Command-line: gperf -L ANSI-C -m 10 lib/generated/aliases.gperf  */
/* Computed positions: -k'1-10,$' */

#if !((' ' == 32) && ('!' == 33) && ('"' == 34) && ('#' == 35) \
      && ('%' == 37) && ('&' == 38) && ('\'' == 39) && ('(' == 40) \
      && (')' == 41) && ('*' == 42) && ('+' == 43) && (',' == 44) \
      && ('-' == 45) && ('.' == 46) && ('/' == 47) && ('0' == 48) \
      && ('1' == 49) && ('2' == 50) && ('3' == 51) && ('4' == 52) \
      && ('5' == 53) && ('6' == 54) && ('7' == 55) && ('8' == 56) \
      && ('9' == 57) && (':' == 58) && (';' == 59) && ('<' == 60) \
      && ('=' == 61) && ('>' == 62) && ('?' == 63) && ('A' == 65) \
      && ('B' == 66) && ('C' == 67) && ('D' == 68) && ('E' == 69) \
      && ('F' == 70) && ('G' == 71) && ('H' == 72) && ('I' == 73) \
      && ('J' == 74) && ('K' == 75) && ('L' == 76) && ('M' == 77) \
      && ('N' == 78) && ('O' == 79) && ('P' == 80) && ('Q' == 81) \
      && ('R' == 82) && ('S' == 83) && ('T' == 84) && ('U' == 85) \
      && ('V' == 86) && ('W' == 87) && ('X' == 88) && ('Y' == 89) \
      && ('Z' == 90) && ('[' == 91) && ('\\' == 92) && (']' == 93) \
      && ('^' == 94) && ('_' == 95) && ('a' == 97) && ('b' == 98) \
      && ('c' == 99) && ('d' == 100) && ('e' == 101) && ('f' == 102) \
      && ('g' == 103) && ('h' == 104) && ('i' == 105) && ('j' == 106) \
      && ('k' == 107) && ('l' == 108) && ('m' == 109) && ('n' == 110) \
      && ('o' == 111) && ('p' == 112) && ('q' == 113) && ('r' == 114) \
      && ('s' == 115) && ('t' == 116) && ('u' == 117) && ('v' == 118) \
      && ('w' == 119) && ('x' == 120) && ('y' == 121) && ('z' == 122) \
      && ('{' == 123) && ('|' == 124) && ('}' == 125) && ('~' == 126))
/* The character set is not based on ISO-646.  */
#error "gperf generated tables don't work with this execution character set. Please report a bug to <bug-gperf@gnu.org>."
#endif

#line 2 "lib/generated/aliases.gperf"
struct alias { int name; unsigned int encoding_index; };

#define TOTAL_KEYWORDS 851
#define MIN_WORD_LENGTH 2
#define MAX_WORD_LENGTH 39
#define MIN_HASH_VALUE 217
#define MAX_HASH_VALUE 6337
/* maximum key range = 6121, duplicates = 0 */

#ifdef __GNUC__
__inline
#else
#ifdef __cplusplus
inline
#endif
#endif
static unsigned int
aliases_hash (register const char *str, register size_t len)
{
  static const unsigned short asso_values[] =
    {
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 1332,  685, 6338,  789,   26,
        13,  235,  230,  147,  813,  731,  770,   68,  708,   21,
       571,  635, 6338, 6338, 6338,  297,  999,  198,  132,  667,
        27,  112,  119,  365,  105,  504,  949, 1000,  489, 1163,
       625,  164,   24,  694,  807,  361,  702,   84,  629, 1068,
       706,  425,  380, 1289, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338, 6338,
      6338, 6338
    };
  register unsigned int hval = len;

  switch (hval)
    {
      default:
        hval += asso_values[(unsigned char)str[9]];
      /*FALLTHROUGH*/
      case 9:
        hval += asso_values[(unsigned char)str[8]];
      /*FALLTHROUGH*/
      case 8:
        hval += asso_values[(unsigned char)str[7]];
      /*FALLTHROUGH*/
      case 7:
        hval += asso_values[(unsigned char)str[6]];
      /*FALLTHROUGH*/
      case 6:
        hval += asso_values[(unsigned char)str[5]+4];
      /*FALLTHROUGH*/
      case 5:
        hval += asso_values[(unsigned char)str[4]];
      /*FALLTHROUGH*/
      case 4:
        hval += asso_values[(unsigned char)str[3]];
      /*FALLTHROUGH*/
      case 3:
        hval += asso_values[(unsigned char)str[2]];
      /*FALLTHROUGH*/
      case 2:
        hval += asso_values[(unsigned char)str[1]+2];
      /*FALLTHROUGH*/
      case 1:
        hval += asso_values[(unsigned char)str[0]];
        break;
    }
  return hval + asso_values[(unsigned char)str[len - 1]];
}

struct stringpool_t
  {
    char stringpool_str217[sizeof("50222")];
    char stringpool_str243[sizeof("50221")];
    char stringpool_str244[sizeof("932")];
    char stringpool_str304[sizeof("1122")];
    char stringpool_str317[sizeof("1112")];
    char stringpool_str327[sizeof("922")];
    char stringpool_str334[sizeof("CP922")];
    char stringpool_str350[sizeof("1025")];
    char stringpool_str358[sizeof("C99")];
    char stringpool_str386[sizeof("CPGR")];
    char stringpool_str414[sizeof("1129")];
    char stringpool_str433[sizeof("1252")];
    char stringpool_str459[sizeof("1251")];
    char stringpool_str485[sizeof("50225")];
    char stringpool_str508[sizeof("CP1125")];
    char stringpool_str521[sizeof("1142")];
    char stringpool_str526[sizeof("1132")];
    char stringpool_str537[sizeof("U32")];
    char stringpool_str547[sizeof("1141")];
    char stringpool_str552[sizeof("1131")];
    char stringpool_str554[sizeof("273")];
    char stringpool_str556[sizeof("CP932")];
    char stringpool_str572[sizeof("1125")];
    char stringpool_str587[sizeof("CP1251")];
    char stringpool_str629[sizeof("CP1255")];
    char stringpool_str631[sizeof("1149")];
    char stringpool_str642[sizeof("CP1155")];
    char stringpool_str661[sizeof("CP949")];
    char stringpool_str683[sizeof("CP1141")];
    char stringpool_str688[sizeof("CP1131")];
    char stringpool_str701[sizeof("1255")];
    char stringpool_str706[sizeof("1155")];
    char stringpool_str712[sizeof("X0212")];
    char stringpool_str716[sizeof("51932")];
    char stringpool_str725[sizeof("CP1145")];
    char stringpool_str738[sizeof("1124")];
    char stringpool_str748[sizeof("1123")];
    char stringpool_str750[sizeof("282")];
    char stringpool_str756[sizeof("JP")];
    char stringpool_str757[sizeof("425")];
    char stringpool_str761[sizeof("924")];
    char stringpool_str764[sizeof("CP425")];
    char stringpool_str768[sizeof("CP924")];
    char stringpool_str789[sizeof("1145")];
    char stringpool_str821[sizeof("51949")];
    char stringpool_str860[sizeof("CP154")];
    char stringpool_str865[sizeof("UHC")];
    char stringpool_str867[sizeof("1254")];
    char stringpool_str872[sizeof("1154")];
    char stringpool_str877[sizeof("1253")];
    char stringpool_str882[sizeof("1153")];
    char stringpool_str893[sizeof("871")];
    char stringpool_str898[sizeof("10021")];
    char stringpool_str923[sizeof("424")];
    char stringpool_str930[sizeof("CP424")];
    char stringpool_str933[sizeof("423")];
    char stringpool_str940[sizeof("CP423")];
    char stringpool_str955[sizeof("1144")];
    char stringpool_str965[sizeof("1143")];
    char stringpool_str967[sizeof("28592")];
    char stringpool_str970[sizeof("1133")];
    char stringpool_str982[sizeof("10029")];
    char stringpool_str993[sizeof("28591")];
    char stringpool_str995[sizeof("CP943")];
    char stringpool_str996[sizeof("CP1129")];
    char stringpool_str1018[sizeof("285")];
    char stringpool_str1020[sizeof("949")];
    char stringpool_str1033[sizeof("HP15CN")];
    char stringpool_str1036[sizeof("CP282")];
    char stringpool_str1038[sizeof("4971")];
    char stringpool_str1040[sizeof("L9")];
    char stringpool_str1042[sizeof("1361")];
    char stringpool_str1044[sizeof("12712")];
    char stringpool_str1077[sizeof("28599")];
    char stringpool_str1096[sizeof("775")];
    char stringpool_str1101[sizeof("1201")];
    char stringpool_str1104[sizeof("1162")];
    char stringpool_str1119[sizeof("CP1122")];
    char stringpool_str1130[sizeof("1161")];
    char stringpool_str1132[sizeof("CP1112")];
    char stringpool_str1135[sizeof("875")];
    char stringpool_str1144[sizeof("819")];
    char stringpool_str1159[sizeof("CP819")];
    char stringpool_str1162[sizeof("U7")];
    char stringpool_str1166[sizeof("CP1257")];
    char stringpool_str1170[sizeof("CP852")];
    char stringpool_str1172[sizeof("CP12712")];
    char stringpool_str1179[sizeof("CP1157")];
    char stringpool_str1184[sizeof("284")];
    char stringpool_str1194[sizeof("L2")];
    char stringpool_str1207[sizeof("HZ")];
    char stringpool_str1212[sizeof("L1")];
    char stringpool_str1213[sizeof("CP1149")];
    char stringpool_str1220[sizeof("154")];
    char stringpool_str1227[sizeof("CP51932")];
    char stringpool_str1229[sizeof("CP1201")];
    char stringpool_str1235[sizeof("28595")];
    char stringpool_str1240[sizeof("CP1252")];
    char stringpool_str1255[sizeof("GBK")];
    char stringpool_str1259[sizeof("CP1123")];
    char stringpool_str1262[sizeof("CP1147")];
    char stringpool_str1266[sizeof("CP1161")];
    char stringpool_str1267[sizeof("CP1137")];
    char stringpool_str1271[sizeof("CP1025")];
    char stringpool_str1293[sizeof("CP1124")];
    char stringpool_str1301[sizeof("874")];
    char stringpool_str1304[sizeof("CP285")];
    char stringpool_str1308[sizeof("CP1165")];
    char stringpool_str1314[sizeof("CN")];
    char stringpool_str1333[sizeof("L3")];
    char stringpool_str1336[sizeof("CP1142")];
    char stringpool_str1339[sizeof("CP12001")];
    char stringpool_str1341[sizeof("CP1132")];
    char stringpool_str1350[sizeof("GB2312")];
    char stringpool_str1354[sizeof("943")];
    char stringpool_str1356[sizeof("UTF32")];
    char stringpool_str1363[sizeof("CP1051")];
    char stringpool_str1372[sizeof("1165")];
    char stringpool_str1376[sizeof("CP51949")];
    char stringpool_str1380[sizeof("CP1253")];
    char stringpool_str1393[sizeof("CP1153")];
    char stringpool_str1401[sizeof("28594")];
    char stringpool_str1411[sizeof("28593")];
    char stringpool_str1414[sizeof("CP1254")];
    char stringpool_str1418[sizeof("US")];
    char stringpool_str1427[sizeof("CP1154")];
    char stringpool_str1430[sizeof("CP4971")];
    char stringpool_str1433[sizeof("CP1250")];
    char stringpool_str1438[sizeof("CP855")];
    char stringpool_str1441[sizeof("CP273")];
    char stringpool_str1470[sizeof("CP284")];
    char stringpool_str1475[sizeof("CP1361")];
    char stringpool_str1476[sizeof("CP1143")];
    char stringpool_str1481[sizeof("CP1133")];
    char stringpool_str1499[sizeof("297")];
    char stringpool_str1501[sizeof("X0201")];
    char stringpool_str1504[sizeof("R8")];
    char stringpool_str1506[sizeof("EUCKR")];
    char stringpool_str1510[sizeof("CP1144")];
    char stringpool_str1529[sizeof("CP1140")];
    char stringpool_str1530[sizeof("852")];
    char stringpool_str1534[sizeof("CP1130")];
    char stringpool_str1538[sizeof("1164")];
    char stringpool_str1546[sizeof("277")];
    char stringpool_str1548[sizeof("1163")];
    char stringpool_str1569[sizeof("862")];
    char stringpool_str1595[sizeof("861")];
    char stringpool_str1597[sizeof("MAC")];
    char stringpool_str1603[sizeof("JAVA")];
    char stringpool_str1614[sizeof("CP853")];
    char stringpool_str1617[sizeof("IBM12712")];
    char stringpool_str1624[sizeof("278")];
    char stringpool_str1629[sizeof("10082")];
    char stringpool_str1637[sizeof("IBM1252")];
    char stringpool_str1653[sizeof("50227")];
    char stringpool_str1655[sizeof("10081")];
    char stringpool_str1679[sizeof("869")];
    char stringpool_str1682[sizeof("1026")];
    char stringpool_str1700[sizeof("10079")];
    char stringpool_str1719[sizeof("CP-GR")];
    char stringpool_str1729[sizeof("IBM1112")];
    char stringpool_str1735[sizeof("1047")];
    char stringpool_str1741[sizeof("500")];
    char stringpool_str1750[sizeof("L7")];
    char stringpool_str1752[sizeof("UCS2")];
    char stringpool_str1755[sizeof("CP1258")];
    char stringpool_str1757[sizeof("IBM921")];
    char stringpool_str1762[sizeof("5601")];
    char stringpool_str1768[sizeof("CP1158")];
    char stringpool_str1769[sizeof("50220")];
    char stringpool_str1770[sizeof("CP297")];
    char stringpool_str1780[sizeof("CP871")];
    char stringpool_str1798[sizeof("855")];
    char stringpool_str1820[sizeof("CP28592")];
    char stringpool_str1829[sizeof("L5")];
    char stringpool_str1836[sizeof("CP862")];
    char stringpool_str1837[sizeof("865")];
    char stringpool_str1841[sizeof("U8")];
    char stringpool_str1842[sizeof("437")];
    char stringpool_str1844[sizeof("936")];
    char stringpool_str1846[sizeof("CP28591")];
    char stringpool_str1851[sizeof("CP1148")];
    char stringpool_str1856[sizeof("KOI8R")];
    char stringpool_str1862[sizeof("CP861")];
    char stringpool_str1863[sizeof("CP1097")];
    char stringpool_str1866[sizeof("CP01142")];
    char stringpool_str1869[sizeof("1257")];
    char stringpool_str1874[sizeof("1157")];
    char stringpool_str1875[sizeof("IBM4971")];
    char stringpool_str1891[sizeof("12001")];
    char stringpool_str1892[sizeof("CP01141")];
    char stringpool_str1899[sizeof("1046")];
    char stringpool_str1905[sizeof("IBM1255")];
    char stringpool_str1913[sizeof("BIG5")];
    char stringpool_str1916[sizeof("10005")];
    char stringpool_str1918[sizeof("IBM1155")];
    char stringpool_str1919[sizeof("CP1162")];
    char stringpool_str1929[sizeof("EUCTW")];
    char stringpool_str1930[sizeof("CP28599")];
    char stringpool_str1935[sizeof("CP1256")];
    char stringpool_str1946[sizeof("CP869")];
    char stringpool_str1947[sizeof("1258")];
    char stringpool_str1948[sizeof("CP1156")];
    char stringpool_str1952[sizeof("1158")];
    char stringpool_str1956[sizeof("ASCII")];
    char stringpool_str1957[sizeof("1147")];
    char stringpool_str1961[sizeof("IBM425")];
    char stringpool_str1962[sizeof("1137")];
    char stringpool_str1965[sizeof("PT154")];
    char stringpool_str1974[sizeof("853")];
    char stringpool_str1976[sizeof("CP01149")];
    char stringpool_str1979[sizeof("CPIS")];
    char stringpool_str1983[sizeof("CP775")];
    char stringpool_str1985[sizeof("1250")];
    char stringpool_str1990[sizeof("CP10079")];
    char stringpool_str1994[sizeof("L4")];
    char stringpool_str2003[sizeof("864")];
    char stringpool_str2013[sizeof("863")];
    char stringpool_str2017[sizeof("CP50222")];
    char stringpool_str2020[sizeof("CP950")];
    char stringpool_str2022[sizeof("CP875")];
    char stringpool_str2025[sizeof("CP1047")];
    char stringpool_str2031[sizeof("CP1146")];
    char stringpool_str2033[sizeof("1256")];
    char stringpool_str2035[sizeof("1148")];
    char stringpool_str2038[sizeof("1156")];
    char stringpool_str2043[sizeof("CP50221")];
    char stringpool_str2055[sizeof("ATARI")];
    char stringpool_str2059[sizeof("CP1163")];
    char stringpool_str2071[sizeof("IBM1254")];
    char stringpool_str2073[sizeof("1140")];
    char stringpool_str2075[sizeof("CP1200")];
    char stringpool_str2078[sizeof("1130")];
    char stringpool_str2082[sizeof("10004")];
    char stringpool_str2084[sizeof("IBM1154")];
    char stringpool_str2088[sizeof("CP28595")];
    char stringpool_str2093[sizeof("CP1164")];
    char stringpool_str2094[sizeof("IBM1153")];
    char stringpool_str2104[sizeof("CP865")];
    char stringpool_str2110[sizeof("DECKANJI")];
    char stringpool_str2112[sizeof("CP1160")];
    char stringpool_str2116[sizeof("CP51950")];
    char stringpool_str2121[sizeof("1146")];
    char stringpool_str2130[sizeof("EUCCN")];
    char stringpool_str2134[sizeof("CP01145")];
    char stringpool_str2154[sizeof("CP437")];
    char stringpool_str2156[sizeof("CP936")];
    char stringpool_str2175[sizeof("KOREAN")];
    char stringpool_str2180[sizeof("51950")];
    char stringpool_str2186[sizeof("UCS4")];
    char stringpool_str2188[sizeof("CP874")];
    char stringpool_str2225[sizeof("U16")];
    char stringpool_str2254[sizeof("CP28594")];
    char stringpool_str2256[sizeof("CSBIG5")];
    char stringpool_str2260[sizeof("CP65001")];
    char stringpool_str2264[sizeof("CP28593")];
    char stringpool_str2270[sizeof("CP864")];
    char stringpool_str2280[sizeof("CP863")];
    char stringpool_str2285[sizeof("CP50225")];
    char stringpool_str2290[sizeof("IBM1162")];
    char stringpool_str2300[sizeof("CP01144")];
    char stringpool_str2302[sizeof("280")];
    char stringpool_str2303[sizeof("PCK")];
    char stringpool_str2309[sizeof("EUCJP")];
    char stringpool_str2310[sizeof("CP01143")];
    char stringpool_str2311[sizeof("52936")];
    char stringpool_str2312[sizeof("KSC5601")];
    char stringpool_str2313[sizeof("IBM1132")];
    char stringpool_str2316[sizeof("IBM1161")];
    char stringpool_str2321[sizeof("10017")];
    char stringpool_str2326[sizeof("DECHANZI")];
    char stringpool_str2336[sizeof("IBM297")];
    char stringpool_str2339[sizeof("IBM1131")];
    char stringpool_str2343[sizeof("737")];
    char stringpool_str2349[sizeof("CP28605")];
    char stringpool_str2352[sizeof("IBM1142")];
    char stringpool_str2357[sizeof("CP10005")];
    char stringpool_str2378[sizeof("IBM1141")];
    char stringpool_str2380[sizeof("950")];
    char stringpool_str2395[sizeof("IBM1122")];
    char stringpool_str2400[sizeof("IBM1169")];
    char stringpool_str2403[sizeof("28597")];
    char stringpool_str2410[sizeof("IBM922")];
    char stringpool_str2414[sizeof("HZGB2312")];
    char stringpool_str2419[sizeof("870")];
    char stringpool_str2429[sizeof("L8")];
    char stringpool_str2430[sizeof("CP10082")];
    char stringpool_str2433[sizeof("CP277")];
    char stringpool_str2436[sizeof("HEBREW")];
    char stringpool_str2437[sizeof("10010")];
    char stringpool_str2456[sizeof("CP10081")];
    char stringpool_str2460[sizeof("838")];
    char stringpool_str2462[sizeof("IBM1149")];
    char stringpool_str2470[sizeof("367")];
    char stringpool_str2474[sizeof("CSGB2312")];
    char stringpool_str2481[sizeof("28598")];
    char stringpool_str2501[sizeof("IBM285")];
    char stringpool_str2505[sizeof("IBM1129")];
    char stringpool_str2511[sizeof("CP278")];
    char stringpool_str2514[sizeof("EBCDICCPFR")];
    char stringpool_str2520[sizeof("CNBIG5")];
    char stringpool_str2523[sizeof("CP10004")];
    char stringpool_str2525[sizeof("CP28603")];
    char stringpool_str2528[sizeof("CP16804")];
    char stringpool_str2530[sizeof("KOI8U")];
    char stringpool_str2534[sizeof("L6")];
    char stringpool_str2556[sizeof("UTF7")];
    char stringpool_str2558[sizeof("IBM1165")];
    char stringpool_str2567[sizeof("28596")];
    char stringpool_str2575[sizeof("IBM905")];
    char stringpool_str2577[sizeof("CP1026")];
    char stringpool_str2584[sizeof("IBM924")];
    char stringpool_str2588[sizeof("CP280")];
    char stringpool_str2589[sizeof("CSEUCTW")];
    char stringpool_str2599[sizeof("EBCDICCPGR")];
    char stringpool_str2604[sizeof("CCSID01142")];
    char stringpool_str2606[sizeof("CP857")];
    char stringpool_str2614[sizeof("CP1166")];
    char stringpool_str2620[sizeof("IBM1145")];
    char stringpool_str2622[sizeof("28605")];
    char stringpool_str2627[sizeof("1200")];
    char stringpool_str2630[sizeof("CCSID01141")];
    char stringpool_str2632[sizeof("IBM932")];
    char stringpool_str2634[sizeof("UTF8")];
    char stringpool_str2635[sizeof("IBM855")];
    char stringpool_str2637[sizeof("ISOIR199")];
    char stringpool_str2655[sizeof("CP737")];
    char stringpool_str2656[sizeof("1160")];
    char stringpool_str2663[sizeof("IBM1125")];
    char stringpool_str2680[sizeof("DECHANYU")];
    char stringpool_str2684[sizeof("CP858")];
    char stringpool_str2688[sizeof("JOHAB")];
    char stringpool_str2698[sizeof("CP10021")];
    char stringpool_str2703[sizeof("38598")];
    char stringpool_str2704[sizeof("1166")];
    char stringpool_str2706[sizeof("UTF32BE")];
    char stringpool_str2709[sizeof("TDS565")];
    char stringpool_str2711[sizeof("PTCP154")];
    char stringpool_str2712[sizeof("IBM423")];
    char stringpool_str2713[sizeof("CP037")];
    char stringpool_str2714[sizeof("CCSID01149")];
    char stringpool_str2716[sizeof("ISOIR159")];
    char stringpool_str2720[sizeof("IBM437")];
    char stringpool_str2722[sizeof("CP850")];
    char stringpool_str2723[sizeof("IBM01142")];
    char stringpool_str2724[sizeof("IBM1164")];
    char stringpool_str2734[sizeof("IBM1163")];
    char stringpool_str2736[sizeof("RUSCII")];
    char stringpool_str2737[sizeof("CP367")];
    char stringpool_str2741[sizeof("CP500")];
    char stringpool_str2746[sizeof("IBM424")];
    char stringpool_str2747[sizeof("UTF16")];
    char stringpool_str2749[sizeof("IBM01141")];
    char stringpool_str2759[sizeof("CSPCP852")];
    char stringpool_str2765[sizeof("L10")];
    char stringpool_str2767[sizeof("IBM943")];
    char stringpool_str2770[sizeof("CP856")];
    char stringpool_str2772[sizeof("CP838")];
    char stringpool_str2782[sizeof("CP10029")];
    char stringpool_str2786[sizeof("IBM1144")];
    char stringpool_str2793[sizeof("CP0037")];
    char stringpool_str2794[sizeof("CP1046")];
    char stringpool_str2796[sizeof("IBM1143")];
    char stringpool_str2798[sizeof("28603")];
    char stringpool_str2799[sizeof("ISOIR149")];
    char stringpool_str2809[sizeof("U32LE")];
    char stringpool_str2814[sizeof("CP52936")];
    char stringpool_str2818[sizeof("CSUCS4")];
    char stringpool_str2820[sizeof("16804")];
    char stringpool_str2829[sizeof("IBM1124")];
    char stringpool_str2833[sizeof("IBM01149")];
    char stringpool_str2839[sizeof("IBM1123")];
    char stringpool_str2859[sizeof("U32BE")];
    char stringpool_str2865[sizeof("CP12000")];
    char stringpool_str2872[sizeof("CCSID01145")];
    char stringpool_str2875[sizeof("EBCDICCPCH")];
    char stringpool_str2892[sizeof("ISOIR14")];
    char stringpool_str2893[sizeof("TCVN5712")];
    char stringpool_str2894[sizeof("54936")];
    char stringpool_str2917[sizeof("EBCDICFR297+EURO")];
    char stringpool_str2933[sizeof("TCVN57121")];
    char stringpool_str2937[sizeof("CNGB")];
    char stringpool_str2966[sizeof("857")];
    char stringpool_str2985[sizeof("CNS11643")];
    char stringpool_str2987[sizeof("LATIN1")];
    char stringpool_str2989[sizeof("X0208")];
    char stringpool_str2991[sizeof("IBM01145")];
    char stringpool_str2999[sizeof("IBM277")];
    char stringpool_str3002[sizeof("IBM819")];
    char stringpool_str3003[sizeof("CSEUCKR")];
    char stringpool_str3011[sizeof("MSARAB")];
    char stringpool_str3027[sizeof("ANSI1251")];
    char stringpool_str3029[sizeof("LATIN5")];
    char stringpool_str3031[sizeof("CP54936")];
    char stringpool_str3038[sizeof("CCSID01144")];
    char stringpool_str3044[sizeof("858")];
    char stringpool_str3048[sizeof("CCSID01143")];
    char stringpool_str3059[sizeof("880")];
    char stringpool_str3073[sizeof("IBM1257")];
    char stringpool_str3077[sizeof("MACHEBREW")];
    char stringpool_str3081[sizeof("ARABIC")];
    char stringpool_str3082[sizeof("850")];
    char stringpool_str3084[sizeof("10007")];
    char stringpool_str3086[sizeof("IBM1157")];
    char stringpool_str3112[sizeof("IBM282")];
    char stringpool_str3121[sizeof("860")];
    char stringpool_str3123[sizeof("ISOIR144")];
    char stringpool_str3130[sizeof("856")];
    char stringpool_str3148[sizeof("CP00924")];
    char stringpool_str3151[sizeof("IBM1258")];
    char stringpool_str3157[sizeof("IBM01144")];
    char stringpool_str3158[sizeof("TCVN")];
    char stringpool_str3159[sizeof("TACTIS")];
    char stringpool_str3164[sizeof("IBM1158")];
    char stringpool_str3167[sizeof("IBM01143")];
    char stringpool_str3169[sizeof("866")];
    char stringpool_str3172[sizeof("IBM857")];
    char stringpool_str3177[sizeof("IBM871")];
    char stringpool_str3179[sizeof("65001")];
    char stringpool_str3180[sizeof("IBM775")];
    char stringpool_str3189[sizeof("IBM1250")];
    char stringpool_str3196[sizeof("EBCDICCPFI")];
    char stringpool_str3197[sizeof("IBMEUCKR")];
    char stringpool_str3200[sizeof("10000")];
    char stringpool_str3206[sizeof("EUCJISX0213")];
    char stringpool_str3207[sizeof("IBMCP1133")];
    char stringpool_str3213[sizeof("IBM273")];
    char stringpool_str3217[sizeof("CSKOI8R")];
    char stringpool_str3219[sizeof("IBM875")];
    char stringpool_str3221[sizeof("IBM737")];
    char stringpool_str3222[sizeof("KSC56011989")];
    char stringpool_str3231[sizeof("EBCDICCPCA")];
    char stringpool_str3237[sizeof("IBM1256")];
    char stringpool_str3240[sizeof("20866")];
    char stringpool_str3246[sizeof("IBM852")];
    char stringpool_str3248[sizeof("10006")];
    char stringpool_str3249[sizeof("CHINESE")];
    char stringpool_str3250[sizeof("IBM1156")];
    char stringpool_str3252[sizeof("CCSID853")];
    char stringpool_str3255[sizeof("646")];
    char stringpool_str3256[sizeof("CP28597")];
    char stringpool_str3259[sizeof("IBM861")];
    char stringpool_str3262[sizeof("KOI8RU")];
    char stringpool_str3266[sizeof("GREEK")];
    char stringpool_str3271[sizeof("ECMA114")];
    char stringpool_str3272[sizeof("BIG52003")];
    char stringpool_str3274[sizeof("ISOIR101")];
    char stringpool_str3276[sizeof("KZ1048")];
    char stringpool_str3279[sizeof("IBM037")];
    char stringpool_str3286[sizeof("IBM284")];
    char stringpool_str3294[sizeof("EBCDICCPTR")];
    char stringpool_str3295[sizeof("MS936")];
    char stringpool_str3297[sizeof("UTF16BE")];
    char stringpool_str3300[sizeof("ISOIR179")];
    char stringpool_str3301[sizeof("IBM865")];
    char stringpool_str3302[sizeof("CP01147")];
    char stringpool_str3303[sizeof("IBM367")];
    char stringpool_str3304[sizeof("UTF32LE")];
    char stringpool_str3305[sizeof("IBM280")];
    char stringpool_str3306[sizeof("CP870")];
    char stringpool_str3321[sizeof("ROMAN8")];
    char stringpool_str3327[sizeof("MS874")];
    char stringpool_str3334[sizeof("CP28598")];
    char stringpool_str3345[sizeof("CP880")];
    char stringpool_str3355[sizeof("CYRILLIC")];
    char stringpool_str3358[sizeof("ISOIR109")];
    char stringpool_str3366[sizeof("MSEE")];
    char stringpool_str3372[sizeof("CP21866")];
    char stringpool_str3380[sizeof("CP01148")];
    char stringpool_str3386[sizeof("IBM853")];
    char stringpool_str3388[sizeof("CP860")];
    char stringpool_str3390[sizeof("ATARIST")];
    char stringpool_str3400[sizeof("SJIS")];
    char stringpool_str3405[sizeof("DOS862")];
    char stringpool_str3412[sizeof("CSIBM1125")];
    char stringpool_str3416[sizeof("RK1048")];
    char stringpool_str3417[sizeof("12000")];
    char stringpool_str3418[sizeof("CP01140")];
    char stringpool_str3420[sizeof("CP28596")];
    char stringpool_str3422[sizeof("KOI8T")];
    char stringpool_str3426[sizeof("IBM1025")];
    char stringpool_str3436[sizeof("CP866")];
    char stringpool_str3439[sizeof("IBM850")];
    char stringpool_str3442[sizeof("CP10017")];
    char stringpool_str3453[sizeof("CP50227")];
    char stringpool_str3458[sizeof("IBM500")];
    char stringpool_str3462[sizeof("21866")];
    char stringpool_str3466[sizeof("CP01146")];
    char stringpool_str3471[sizeof("CSIBM01142")];
    char stringpool_str3473[sizeof("EBCDICCYRILLIC")];
    char stringpool_str3485[sizeof("CSASCII")];
    char stringpool_str3497[sizeof("CSIBM01141")];
    char stringpool_str3517[sizeof("LATIN9")];
    char stringpool_str3523[sizeof("XMACCE")];
    char stringpool_str3525[sizeof("CP10007")];
    char stringpool_str3535[sizeof("CSVISCII")];
    char stringpool_str3540[sizeof("ISOIR165")];
    char stringpool_str3544[sizeof("MSGREEK")];
    char stringpool_str3556[sizeof("CP38598")];
    char stringpool_str3558[sizeof("CP10010")];
    char stringpool_str3564[sizeof("EUCJIS2004")];
    char stringpool_str3566[sizeof("LATIN7")];
    char stringpool_str3569[sizeof("CP50220")];
    char stringpool_str3579[sizeof("EBCDICCPDK")];
    char stringpool_str3580[sizeof("MACGREEK")];
    char stringpool_str3581[sizeof("CSIBM01149")];
    char stringpool_str3585[sizeof("UNICODE11")];
    char stringpool_str3588[sizeof("IBM278")];
    char stringpool_str3591[sizeof("EBCDICGREEK")];
    char stringpool_str3594[sizeof("JISX0212")];
    char stringpool_str3599[sizeof("ISO88592")];
    char stringpool_str3609[sizeof("CSWINDOWS1252")];
    char stringpool_str3620[sizeof("IBMEUCTW")];
    char stringpool_str3622[sizeof("CSWINDOWS1251")];
    char stringpool_str3625[sizeof("ISO88591")];
    char stringpool_str3626[sizeof("CCSID00924")];
    char stringpool_str3638[sizeof("CSPTCP154")];
    char stringpool_str3640[sizeof("LATIN2")];
    char stringpool_str3641[sizeof("CP10000")];
    char stringpool_str3648[sizeof("USASCII")];
    char stringpool_str3652[sizeof("ISO885911")];
    char stringpool_str3687[sizeof("GB231280")];
    char stringpool_str3689[sizeof("CP10006")];
    char stringpool_str3697[sizeof("U16LE")];
    char stringpool_str3701[sizeof("WINDOWS1252")];
    char stringpool_str3709[sizeof("ISO88599")];
    char stringpool_str3714[sizeof("WINDOWS1251")];
    char stringpool_str3722[sizeof("UCS2LE")];
    char stringpool_str3726[sizeof("MACTHAI")];
    char stringpool_str3733[sizeof("CSHALFWIDTHKATAKANA")];
    char stringpool_str3739[sizeof("CSIBM01145")];
    char stringpool_str3743[sizeof("CSWINDOWS1255")];
    char stringpool_str3747[sizeof("U16BE")];
    char stringpool_str3749[sizeof("IBM1137")];
    char stringpool_str3761[sizeof("IBM858")];
    char stringpool_str3772[sizeof("UCS2BE")];
    char stringpool_str3780[sizeof("LATIN3")];
    char stringpool_str3786[sizeof("CP65000")];
    char stringpool_str3788[sizeof("IBM1147")];
    char stringpool_str3789[sizeof("IBM869")];
    char stringpool_str3803[sizeof("CSKZ1048")];
    char stringpool_str3804[sizeof("IBM1168")];
    char stringpool_str3805[sizeof("ISOIR6")];
    char stringpool_str3814[sizeof("LATIN4")];
    char stringpool_str3815[sizeof("ISOIR57")];
    char stringpool_str3820[sizeof("SYSTEM1125")];
    char stringpool_str3821[sizeof("IBMEUCCN")];
    char stringpool_str3826[sizeof("CSWINDOWS1254")];
    char stringpool_str3827[sizeof("IBMTHAI")];
    char stringpool_str3831[sizeof("CSWINDOWS1253")];
    char stringpool_str3834[sizeof("VISCII")];
    char stringpool_str3835[sizeof("WINDOWS1255")];
    char stringpool_str3842[sizeof("IBM1160")];
    char stringpool_str3849[sizeof("IBM838")];
    char stringpool_str3855[sizeof("TCVN57121:1993")];
    char stringpool_str3856[sizeof("TIS620")];
    char stringpool_str3865[sizeof("IBM1130")];
    char stringpool_str3866[sizeof("IBM1148")];
    char stringpool_str3867[sizeof("ISO88595")];
    char stringpool_str3877[sizeof("MSKANJI")];
    char stringpool_str3878[sizeof("MSHEBR")];
    char stringpool_str3882[sizeof("JIS0208")];
    char stringpool_str3885[sizeof("KSC56011987")];
    char stringpool_str3890[sizeof("IBM1166")];
    char stringpool_str3891[sizeof("CSKOI8U")];
    char stringpool_str3892[sizeof("EBCDICCPHE")];
    char stringpool_str3893[sizeof("ISOIR58")];
    char stringpool_str3894[sizeof("ISO885915")];
    char stringpool_str3895[sizeof("UTF16LE")];
    char stringpool_str3904[sizeof("IBM1140")];
    char stringpool_str3908[sizeof("ISOIR127")];
    char stringpool_str3911[sizeof("CSUNICODE11")];
    char stringpool_str3912[sizeof("IBM862")];
    char stringpool_str3915[sizeof("CSIBM01143")];
    char stringpool_str3916[sizeof("CSKOI8RU")];
    char stringpool_str3918[sizeof("WINDOWS1254")];
    char stringpool_str3921[sizeof("EBCDICFI278+EURO")];
    char stringpool_str3923[sizeof("WINDOWS1253")];
    char stringpool_str3939[sizeof("UCS4LE")];
    char stringpool_str3941[sizeof("IBM856")];
    char stringpool_str3943[sizeof("CSIBM855")];
    char stringpool_str3944[sizeof("CSIBM1162")];
    char stringpool_str3952[sizeof("IBM1146")];
    char stringpool_str3957[sizeof("TIS620.25291")];
    char stringpool_str3970[sizeof("CSIBM1161")];
    char stringpool_str3989[sizeof("UCS4BE")];
    char stringpool_str4000[sizeof("IBMEUCJP")];
    char stringpool_str4007[sizeof("STRK10482002")];
    char stringpool_str4023[sizeof("IBM870")];
    char stringpool_str4030[sizeof("MACROMAN")];
    char stringpool_str4033[sizeof("ISO88594")];
    char stringpool_str4035[sizeof("GB198880")];
    char stringpool_str4037[sizeof("ISOIR110")];
    char stringpool_str4040[sizeof("CCSID01147")];
    char stringpool_str4042[sizeof("ISOIR157")];
    char stringpool_str4043[sizeof("ISO88593")];
    char stringpool_str4052[sizeof("IBM863")];
    char stringpool_str4053[sizeof("CP866U")];
    char stringpool_str4054[sizeof("BIGFIVE")];
    char stringpool_str4060[sizeof("ISO885914")];
    char stringpool_str4062[sizeof("IBM880")];
    char stringpool_str4070[sizeof("ISO885913")];
    char stringpool_str4072[sizeof("ISOIR126")];
    char stringpool_str4078[sizeof("ISO2022KR")];
    char stringpool_str4086[sizeof("IBM864")];
    char stringpool_str4090[sizeof("SDECKANJI")];
    char stringpool_str4104[sizeof("GREEK8")];
    char stringpool_str4105[sizeof("IBM860")];
    char stringpool_str4118[sizeof("CCSID01148")];
    char stringpool_str4119[sizeof("CSIBM853")];
    char stringpool_str4120[sizeof("CNGBISOIR165")];
    char stringpool_str4135[sizeof("CP20866")];
    char stringpool_str4137[sizeof("EBCDICCPWT")];
    char stringpool_str4145[sizeof("GB18030")];
    char stringpool_str4153[sizeof("MACARABIC")];
    char stringpool_str4155[sizeof("LATIN8")];
    char stringpool_str4156[sizeof("CCSID01140")];
    char stringpool_str4159[sizeof("IBM01147")];
    char stringpool_str4164[sizeof("IBM16804")];
    char stringpool_str4165[sizeof("EBCDICDK277+EURO")];
    char stringpool_str4174[sizeof("CSIBM424")];
    char stringpool_str4179[sizeof("TIS620.25331")];
    char stringpool_str4184[sizeof("CSIBM423")];
    char stringpool_str4185[sizeof("CP00858")];
    char stringpool_str4188[sizeof("EBCDICCPUS")];
    char stringpool_str4191[sizeof("IBM00924")];
    char stringpool_str4192[sizeof("EBCDICCPIS")];
    char stringpool_str4203[sizeof("ISOIR148")];
    char stringpool_str4204[sizeof("CCSID01146")];
    char stringpool_str4208[sizeof("ISOIR138")];
    char stringpool_str4212[sizeof("MSANSI")];
    char stringpool_str4226[sizeof("MSTURK")];
    char stringpool_str4229[sizeof("EBCDICCPYU")];
    char stringpool_str4231[sizeof("MSCYRL")];
    char stringpool_str4237[sizeof("IBM01148")];
    char stringpool_str4248[sizeof("SHIFTJIS")];
    char stringpool_str4257[sizeof("UNICODEFFFE")];
    char stringpool_str4262[sizeof("VISCII1.11")];
    char stringpool_str4275[sizeof("IBM01140")];
    char stringpool_str4283[sizeof("ISO2022JP2")];
    char stringpool_str4285[sizeof("CSIBM871")];
    char stringpool_str4294[sizeof("JISC62261983")];
    char stringpool_str4296[sizeof("EBCDICCPROECE")];
    char stringpool_str4309[sizeof("ISO2022JP1")];
    char stringpool_str4314[sizeof("CYRIILLICASIAN")];
    char stringpool_str4318[sizeof("ISOIR87")];
    char stringpool_str4323[sizeof("IBM01146")];
    char stringpool_str4327[sizeof("CSWINDOWS1257")];
    char stringpool_str4328[sizeof("EBCDICDE273+EURO")];
    char stringpool_str4333[sizeof("MACICELAND")];
    char stringpool_str4335[sizeof("LATIN6")];
    char stringpool_str4351[sizeof("ECMA118")];
    char stringpool_str4358[sizeof("ISOIR203")];
    char stringpool_str4366[sizeof("CSWINDOWS1258")];
    char stringpool_str4367[sizeof("CSIBM861")];
    char stringpool_str4383[sizeof("JISX0201")];
    char stringpool_str4385[sizeof("CSWINDOWS1250")];
    char stringpool_str4387[sizeof("TIS620.2533")];
    char stringpool_str4388[sizeof("CSIBM1163")];
    char stringpool_str4409[sizeof("CSWINDOWS1256")];
    char stringpool_str4416[sizeof("IBM1097")];
    char stringpool_str4418[sizeof("EBCDICCPIT")];
    char stringpool_str4419[sizeof("WINDOWS1257")];
    char stringpool_str4421[sizeof("CSKSC56011987")];
    char stringpool_str4422[sizeof("CSISO159JISX02121990")];
    char stringpool_str4448[sizeof("ISO88599:1989")];
    char stringpool_str4451[sizeof("CSIBM869")];
    char stringpool_str4458[sizeof("WINDOWS1258")];
    char stringpool_str4467[sizeof("EBCDICCPSE")];
    char stringpool_str4468[sizeof("JISX02121990")];
    char stringpool_str4477[sizeof("WINDOWS1250")];
    char stringpool_str4493[sizeof("CSIBM00924")];
    char stringpool_str4494[sizeof("EBCDICCPES")];
    char stringpool_str4501[sizeof("WINDOWS1256")];
    char stringpool_str4502[sizeof("MACROMANIA")];
    char stringpool_str4503[sizeof("ISO2022JP2004")];
    char stringpool_str4517[sizeof("CSSHIFTJIS")];
    char stringpool_str4521[sizeof("CSISO885915")];
    char stringpool_str4524[sizeof("CSUNICODE")];
    char stringpool_str4539[sizeof("CSISO2022JP2")];
    char stringpool_str4540[sizeof("LATIN10")];
    char stringpool_str4549[sizeof("EBCDICCPGB")];
    char stringpool_str4551[sizeof("IBM1047")];
    char stringpool_str4569[sizeof("CSWINDOWS874")];
    char stringpool_str4578[sizeof("MACCROATIAN")];
    char stringpool_str4590[sizeof("SHIFTJIS2004")];
    char stringpool_str4599[sizeof("KOKR.JOHAP92")];
    char stringpool_str4607[sizeof("IBM866")];
    char stringpool_str4609[sizeof("CSIBM865")];
    char stringpool_str4620[sizeof("CSUNICODE11UTF7")];
    char stringpool_str4639[sizeof("XMACHEBREW")];
    char stringpool_str4642[sizeof("CYRILLICASIAN")];
    char stringpool_str4646[sizeof("TIS6200")];
    char stringpool_str4649[sizeof("CSIBM905")];
    char stringpool_str4655[sizeof("UNICODE11UTF7")];
    char stringpool_str4679[sizeof("EBCDICGB285+EURO")];
    char stringpool_str4702[sizeof("ISO2022CN")];
    char stringpool_str4705[sizeof("65000")];
    char stringpool_str4707[sizeof("CSIBMTHAI")];
    char stringpool_str4715[sizeof("IBM1046")];
    char stringpool_str4727[sizeof("ISO2022JP3")];
    char stringpool_str4737[sizeof("CSPC775BALTIC")];
    char stringpool_str4738[sizeof("ISOIR226")];
    char stringpool_str4740[sizeof("EBCDICIT280+EURO")];
    char stringpool_str4758[sizeof("IBM1026")];
    char stringpool_str4762[sizeof("DECKOREAN")];
    char stringpool_str4772[sizeof("EBCDICCPBE")];
    char stringpool_str4775[sizeof("CSIBM864")];
    char stringpool_str4785[sizeof("CSIBM863")];
    char stringpool_str4800[sizeof("ISOIR100")];
    char stringpool_str4805[sizeof("EBCDICUS37+EURO")];
    char stringpool_str4808[sizeof("CSIBM285")];
    char stringpool_str4824[sizeof("ISO646CN")];
    char stringpool_str4826[sizeof("EBCDICCPNL")];
    char stringpool_str4858[sizeof("CSIBM037")];
    char stringpool_str4872[sizeof("ISOIR166")];
    char stringpool_str4878[sizeof("CSGB18030")];
    char stringpool_str4881[sizeof("ISO2022JP")];
    char stringpool_str4884[sizeof("GB18030:2022")];
    char stringpool_str4887[sizeof("GEORGIANACADEMY")];
    char stringpool_str4890[sizeof("EBCDICSE278+EURO")];
    char stringpool_str4907[sizeof("CSIBM01147")];
    char stringpool_str4912[sizeof("ISOIR230")];
    char stringpool_str4929[sizeof("EBCDICES284+EURO")];
    char stringpool_str4941[sizeof("CSEUCPKDFMTJAPANESE")];
    char stringpool_str4942[sizeof("TIS620.25330")];
    char stringpool_str4945[sizeof("CSIBM273")];
    char stringpool_str4948[sizeof("CSISO2022KR")];
    char stringpool_str4956[sizeof("ISOCELTIC")];
    char stringpool_str4974[sizeof("CSIBM284")];
    char stringpool_str4983[sizeof("MACINTOSH")];
    char stringpool_str4985[sizeof("CSIBM01148")];
    char stringpool_str5003[sizeof("ISO646JP")];
    char stringpool_str5018[sizeof("GB18030:2005")];
    char stringpool_str5023[sizeof("CSIBM01140")];
    char stringpool_str5028[sizeof("CSPC862LATINHEBREW")];
    char stringpool_str5034[sizeof("HPROMAN8")];
    char stringpool_str5035[sizeof("ISO88597")];
    char stringpool_str5039[sizeof("ISO10646UCS2")];
    char stringpool_str5045[sizeof("MACCENTRALEUROPE")];
    char stringpool_str5056[sizeof("ISO88592:1987")];
    char stringpool_str5069[sizeof("ISO88591:1987")];
    char stringpool_str5072[sizeof("UCS2INTERNAL")];
    char stringpool_str5074[sizeof("ISO88598I")];
    char stringpool_str5077[sizeof("MACTURKISH")];
    char stringpool_str5078[sizeof("XMACTHAI")];
    char stringpool_str5087[sizeof("JISX0212.19900")];
    char stringpool_str5096[sizeof("UNICODEBIG")];
    char stringpool_str5098[sizeof("CSPC8CODEPAGE1144")];
    char stringpool_str5107[sizeof("CSISO2022CN")];
    char stringpool_str5111[sizeof("CSIBM857")];
    char stringpool_str5113[sizeof("ISO88598")];
    char stringpool_str5115[sizeof("ISO885910:1992")];
    char stringpool_str5123[sizeof("RISCOSLATIN1")];
    char stringpool_str5124[sizeof("EBCDICINTERNATIONAL500+EURO")];
    char stringpool_str5132[sizeof("ANSIX3.41968")];
    char stringpool_str5150[sizeof("CSISO2022JP")];
    char stringpool_str5152[sizeof("ISO885916:2001")];
    char stringpool_str5153[sizeof("XCP50227")];
    char stringpool_str5175[sizeof("ANSIX3.41986")];
    char stringpool_str5178[sizeof("ISO885910")];
    char stringpool_str5181[sizeof("EBCDICNO277+EURO")];
    char stringpool_str5189[sizeof("CSIBM858")];
    char stringpool_str5199[sizeof("ISO88596")];
    char stringpool_str5200[sizeof("JISC62201969RO")];
    char stringpool_str5203[sizeof("EBCDICLATIN9EURO")];
    char stringpool_str5211[sizeof("UCS2SWAPPED")];
    char stringpool_str5212[sizeof("SHIFTJISX0213")];
    char stringpool_str5226[sizeof("ISO885916")];
    char stringpool_str5229[sizeof("ISO88595:1988")];
    char stringpool_str5230[sizeof("ISO885915:1998")];
    char stringpool_str5254[sizeof("EBCDICCPNO")];
    char stringpool_str5256[sizeof("ISO10646UCS4")];
    char stringpool_str5265[sizeof("ISO88597:2003")];
    char stringpool_str5268[sizeof("JISX02011976")];
    char stringpool_str5274[sizeof("CSIBM297")];
    char stringpool_str5285[sizeof("NEXTSTEP")];
    char stringpool_str5289[sizeof("UCS4INTERNAL")];
    char stringpool_str5294[sizeof("WINDOWS950")];
    char stringpool_str5312[sizeof("ISO88594:1988")];
    char stringpool_str5313[sizeof("ISO885914:1998")];
    char stringpool_str5317[sizeof("ISO88593:1988")];
    char stringpool_str5329[sizeof("ASMO708")];
    char stringpool_str5332[sizeof("GEORGIANPS")];
    char stringpool_str5333[sizeof("BIG5HKSCS")];
    char stringpool_str5341[sizeof("IBM00858")];
    char stringpool_str5345[sizeof("EBCDICIS871+EURO")];
    char stringpool_str5353[sizeof("XMACARABIC")];
    char stringpool_str5357[sizeof("CSHPROMAN8")];
    char stringpool_str5366[sizeof("CSIBM500")];
    char stringpool_str5377[sizeof("XMACICELANDIC")];
    char stringpool_str5378[sizeof("BIG5HKSCS:2001")];
    char stringpool_str5388[sizeof("CSISOLATIN2")];
    char stringpool_str5397[sizeof("ISO646US")];
    char stringpool_str5401[sizeof("CSISOLATIN1")];
    char stringpool_str5420[sizeof("BIG5HKSCS:1999")];
    char stringpool_str5428[sizeof("UCS4SWAPPED")];
    char stringpool_str5430[sizeof("WINDOWS936")];
    char stringpool_str5434[sizeof("JISX02081983")];
    char stringpool_str5452[sizeof("XMACGREEK")];
    char stringpool_str5457[sizeof("ISO646.IRV:1991")];
    char stringpool_str5458[sizeof("MACUKRAINE")];
    char stringpool_str5462[sizeof("WINDOWS874")];
    char stringpool_str5464[sizeof("CSISOLATINHEBREW")];
    char stringpool_str5488[sizeof("XMACUKRAINIAN")];
    char stringpool_str5500[sizeof("CSISO57GB1988")];
    char stringpool_str5502[sizeof("CSISO14JISC6220RO")];
    char stringpool_str5507[sizeof("CSIBM1026")];
    char stringpool_str5522[sizeof("CSISOLATIN5")];
    char stringpool_str5539[sizeof("MULELAO1")];
    char stringpool_str5542[sizeof("CCSID00858")];
    char stringpool_str5547[sizeof("CSISO58GB231280")];
    char stringpool_str5554[sizeof("ELOT928")];
    char stringpool_str5560[sizeof("CSIBM1047")];
    char stringpool_str5578[sizeof("CSISOLATINARABIC")];
    char stringpool_str5580[sizeof("CSISOLATINCYRILLIC")];
    char stringpool_str5582[sizeof("BIG5HKSCS:2004")];
    char stringpool_str5598[sizeof("CSPC8CODEPAGE437")];
    char stringpool_str5605[sizeof("CSISOLATIN4")];
    char stringpool_str5610[sizeof("CSISOLATIN3")];
    char stringpool_str5657[sizeof("XMACROMANIAN")];
    char stringpool_str5681[sizeof("CSPC8CODEPAGE1146")];
    char stringpool_str5690[sizeof("ISO2022CNEXT")];
    char stringpool_str5774[sizeof("ISO88597:1987")];
    char stringpool_str5810[sizeof("EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE")];
    char stringpool_str5811[sizeof("CSIBM870")];
    char stringpool_str5850[sizeof("CSIBM880")];
    char stringpool_str5852[sizeof("ISO88598:1988")];
    char stringpool_str5856[sizeof("ISO88596:1987")];
    char stringpool_str5871[sizeof("JISX0208")];
    char stringpool_str5879[sizeof("XMACTURKISH")];
    char stringpool_str5883[sizeof("CSISOLATINGREEK")];
    char stringpool_str5893[sizeof("CSIBM860")];
    char stringpool_str5909[sizeof("ARMSCII8")];
    char stringpool_str5937[sizeof("CSIBM277")];
    char stringpool_str5941[sizeof("CSIBM866")];
    char stringpool_str5952[sizeof("ISO2022JPMS")];
    char stringpool_str5988[sizeof("JISX02081990")];
    char stringpool_str6015[sizeof("CSIBM278")];
    char stringpool_str6032[sizeof("CSISO87JISX0208")];
    char stringpool_str6092[sizeof("CSIBM280")];
    char stringpool_str6122[sizeof("BIG5HKSCS:2008")];
    char stringpool_str6165[sizeof("CSISOLATIN10")];
    char stringpool_str6188[sizeof("CSISOLATIN6")];
    char stringpool_str6201[sizeof("MACCYRILLIC")];
    char stringpool_str6204[sizeof("WINBALTRIM")];
    char stringpool_str6271[sizeof("XMACCYRILLIC")];
    char stringpool_str6287[sizeof("CSPC850MULTILINGUAL")];
    char stringpool_str6299[sizeof("UNICODELITTLE")];
    char stringpool_str6320[sizeof("XMACCROATIAN")];
    char stringpool_str6337[sizeof("CSMACINTOSH")];
  };
static const struct stringpool_t stringpool_contents =
  {
    "50222",
    "50221",
    "932",
    "1122",
    "1112",
    "922",
    "CP922",
    "1025",
    "C99",
    "CPGR",
    "1129",
    "1252",
    "1251",
    "50225",
    "CP1125",
    "1142",
    "1132",
    "U32",
    "1141",
    "1131",
    "273",
    "CP932",
    "1125",
    "CP1251",
    "CP1255",
    "1149",
    "CP1155",
    "CP949",
    "CP1141",
    "CP1131",
    "1255",
    "1155",
    "X0212",
    "51932",
    "CP1145",
    "1124",
    "1123",
    "282",
    "JP",
    "425",
    "924",
    "CP425",
    "CP924",
    "1145",
    "51949",
    "CP154",
    "UHC",
    "1254",
    "1154",
    "1253",
    "1153",
    "871",
    "10021",
    "424",
    "CP424",
    "423",
    "CP423",
    "1144",
    "1143",
    "28592",
    "1133",
    "10029",
    "28591",
    "CP943",
    "CP1129",
    "285",
    "949",
    "HP15CN",
    "CP282",
    "4971",
    "L9",
    "1361",
    "12712",
    "28599",
    "775",
    "1201",
    "1162",
    "CP1122",
    "1161",
    "CP1112",
    "875",
    "819",
    "CP819",
    "U7",
    "CP1257",
    "CP852",
    "CP12712",
    "CP1157",
    "284",
    "L2",
    "HZ",
    "L1",
    "CP1149",
    "154",
    "CP51932",
    "CP1201",
    "28595",
    "CP1252",
    "GBK",
    "CP1123",
    "CP1147",
    "CP1161",
    "CP1137",
    "CP1025",
    "CP1124",
    "874",
    "CP285",
    "CP1165",
    "CN",
    "L3",
    "CP1142",
    "CP12001",
    "CP1132",
    "GB2312",
    "943",
    "UTF32",
    "CP1051",
    "1165",
    "CP51949",
    "CP1253",
    "CP1153",
    "28594",
    "28593",
    "CP1254",
    "US",
    "CP1154",
    "CP4971",
    "CP1250",
    "CP855",
    "CP273",
    "CP284",
    "CP1361",
    "CP1143",
    "CP1133",
    "297",
    "X0201",
    "R8",
    "EUCKR",
    "CP1144",
    "CP1140",
    "852",
    "CP1130",
    "1164",
    "277",
    "1163",
    "862",
    "861",
    "MAC",
    "JAVA",
    "CP853",
    "IBM12712",
    "278",
    "10082",
    "IBM1252",
    "50227",
    "10081",
    "869",
    "1026",
    "10079",
    "CP-GR",
    "IBM1112",
    "1047",
    "500",
    "L7",
    "UCS2",
    "CP1258",
    "IBM921",
    "5601",
    "CP1158",
    "50220",
    "CP297",
    "CP871",
    "855",
    "CP28592",
    "L5",
    "CP862",
    "865",
    "U8",
    "437",
    "936",
    "CP28591",
    "CP1148",
    "KOI8R",
    "CP861",
    "CP1097",
    "CP01142",
    "1257",
    "1157",
    "IBM4971",
    "12001",
    "CP01141",
    "1046",
    "IBM1255",
    "BIG5",
    "10005",
    "IBM1155",
    "CP1162",
    "EUCTW",
    "CP28599",
    "CP1256",
    "CP869",
    "1258",
    "CP1156",
    "1158",
    "ASCII",
    "1147",
    "IBM425",
    "1137",
    "PT154",
    "853",
    "CP01149",
    "CPIS",
    "CP775",
    "1250",
    "CP10079",
    "L4",
    "864",
    "863",
    "CP50222",
    "CP950",
    "CP875",
    "CP1047",
    "CP1146",
    "1256",
    "1148",
    "1156",
    "CP50221",
    "ATARI",
    "CP1163",
    "IBM1254",
    "1140",
    "CP1200",
    "1130",
    "10004",
    "IBM1154",
    "CP28595",
    "CP1164",
    "IBM1153",
    "CP865",
    "DECKANJI",
    "CP1160",
    "CP51950",
    "1146",
    "EUCCN",
    "CP01145",
    "CP437",
    "CP936",
    "KOREAN",
    "51950",
    "UCS4",
    "CP874",
    "U16",
    "CP28594",
    "CSBIG5",
    "CP65001",
    "CP28593",
    "CP864",
    "CP863",
    "CP50225",
    "IBM1162",
    "CP01144",
    "280",
    "PCK",
    "EUCJP",
    "CP01143",
    "52936",
    "KSC5601",
    "IBM1132",
    "IBM1161",
    "10017",
    "DECHANZI",
    "IBM297",
    "IBM1131",
    "737",
    "CP28605",
    "IBM1142",
    "CP10005",
    "IBM1141",
    "950",
    "IBM1122",
    "IBM1169",
    "28597",
    "IBM922",
    "HZGB2312",
    "870",
    "L8",
    "CP10082",
    "CP277",
    "HEBREW",
    "10010",
    "CP10081",
    "838",
    "IBM1149",
    "367",
    "CSGB2312",
    "28598",
    "IBM285",
    "IBM1129",
    "CP278",
    "EBCDICCPFR",
    "CNBIG5",
    "CP10004",
    "CP28603",
    "CP16804",
    "KOI8U",
    "L6",
    "UTF7",
    "IBM1165",
    "28596",
    "IBM905",
    "CP1026",
    "IBM924",
    "CP280",
    "CSEUCTW",
    "EBCDICCPGR",
    "CCSID01142",
    "CP857",
    "CP1166",
    "IBM1145",
    "28605",
    "1200",
    "CCSID01141",
    "IBM932",
    "UTF8",
    "IBM855",
    "ISOIR199",
    "CP737",
    "1160",
    "IBM1125",
    "DECHANYU",
    "CP858",
    "JOHAB",
    "CP10021",
    "38598",
    "1166",
    "UTF32BE",
    "TDS565",
    "PTCP154",
    "IBM423",
    "CP037",
    "CCSID01149",
    "ISOIR159",
    "IBM437",
    "CP850",
    "IBM01142",
    "IBM1164",
    "IBM1163",
    "RUSCII",
    "CP367",
    "CP500",
    "IBM424",
    "UTF16",
    "IBM01141",
    "CSPCP852",
    "L10",
    "IBM943",
    "CP856",
    "CP838",
    "CP10029",
    "IBM1144",
    "CP0037",
    "CP1046",
    "IBM1143",
    "28603",
    "ISOIR149",
    "U32LE",
    "CP52936",
    "CSUCS4",
    "16804",
    "IBM1124",
    "IBM01149",
    "IBM1123",
    "U32BE",
    "CP12000",
    "CCSID01145",
    "EBCDICCPCH",
    "ISOIR14",
    "TCVN5712",
    "54936",
    "EBCDICFR297+EURO",
    "TCVN57121",
    "CNGB",
    "857",
    "CNS11643",
    "LATIN1",
    "X0208",
    "IBM01145",
    "IBM277",
    "IBM819",
    "CSEUCKR",
    "MSARAB",
    "ANSI1251",
    "LATIN5",
    "CP54936",
    "CCSID01144",
    "858",
    "CCSID01143",
    "880",
    "IBM1257",
    "MACHEBREW",
    "ARABIC",
    "850",
    "10007",
    "IBM1157",
    "IBM282",
    "860",
    "ISOIR144",
    "856",
    "CP00924",
    "IBM1258",
    "IBM01144",
    "TCVN",
    "TACTIS",
    "IBM1158",
    "IBM01143",
    "866",
    "IBM857",
    "IBM871",
    "65001",
    "IBM775",
    "IBM1250",
    "EBCDICCPFI",
    "IBMEUCKR",
    "10000",
    "EUCJISX0213",
    "IBMCP1133",
    "IBM273",
    "CSKOI8R",
    "IBM875",
    "IBM737",
    "KSC56011989",
    "EBCDICCPCA",
    "IBM1256",
    "20866",
    "IBM852",
    "10006",
    "CHINESE",
    "IBM1156",
    "CCSID853",
    "646",
    "CP28597",
    "IBM861",
    "KOI8RU",
    "GREEK",
    "ECMA114",
    "BIG52003",
    "ISOIR101",
    "KZ1048",
    "IBM037",
    "IBM284",
    "EBCDICCPTR",
    "MS936",
    "UTF16BE",
    "ISOIR179",
    "IBM865",
    "CP01147",
    "IBM367",
    "UTF32LE",
    "IBM280",
    "CP870",
    "ROMAN8",
    "MS874",
    "CP28598",
    "CP880",
    "CYRILLIC",
    "ISOIR109",
    "MSEE",
    "CP21866",
    "CP01148",
    "IBM853",
    "CP860",
    "ATARIST",
    "SJIS",
    "DOS862",
    "CSIBM1125",
    "RK1048",
    "12000",
    "CP01140",
    "CP28596",
    "KOI8T",
    "IBM1025",
    "CP866",
    "IBM850",
    "CP10017",
    "CP50227",
    "IBM500",
    "21866",
    "CP01146",
    "CSIBM01142",
    "EBCDICCYRILLIC",
    "CSASCII",
    "CSIBM01141",
    "LATIN9",
    "XMACCE",
    "CP10007",
    "CSVISCII",
    "ISOIR165",
    "MSGREEK",
    "CP38598",
    "CP10010",
    "EUCJIS2004",
    "LATIN7",
    "CP50220",
    "EBCDICCPDK",
    "MACGREEK",
    "CSIBM01149",
    "UNICODE11",
    "IBM278",
    "EBCDICGREEK",
    "JISX0212",
    "ISO88592",
    "CSWINDOWS1252",
    "IBMEUCTW",
    "CSWINDOWS1251",
    "ISO88591",
    "CCSID00924",
    "CSPTCP154",
    "LATIN2",
    "CP10000",
    "USASCII",
    "ISO885911",
    "GB231280",
    "CP10006",
    "U16LE",
    "WINDOWS1252",
    "ISO88599",
    "WINDOWS1251",
    "UCS2LE",
    "MACTHAI",
    "CSHALFWIDTHKATAKANA",
    "CSIBM01145",
    "CSWINDOWS1255",
    "U16BE",
    "IBM1137",
    "IBM858",
    "UCS2BE",
    "LATIN3",
    "CP65000",
    "IBM1147",
    "IBM869",
    "CSKZ1048",
    "IBM1168",
    "ISOIR6",
    "LATIN4",
    "ISOIR57",
    "SYSTEM1125",
    "IBMEUCCN",
    "CSWINDOWS1254",
    "IBMTHAI",
    "CSWINDOWS1253",
    "VISCII",
    "WINDOWS1255",
    "IBM1160",
    "IBM838",
    "TCVN57121:1993",
    "TIS620",
    "IBM1130",
    "IBM1148",
    "ISO88595",
    "MSKANJI",
    "MSHEBR",
    "JIS0208",
    "KSC56011987",
    "IBM1166",
    "CSKOI8U",
    "EBCDICCPHE",
    "ISOIR58",
    "ISO885915",
    "UTF16LE",
    "IBM1140",
    "ISOIR127",
    "CSUNICODE11",
    "IBM862",
    "CSIBM01143",
    "CSKOI8RU",
    "WINDOWS1254",
    "EBCDICFI278+EURO",
    "WINDOWS1253",
    "UCS4LE",
    "IBM856",
    "CSIBM855",
    "CSIBM1162",
    "IBM1146",
    "TIS620.25291",
    "CSIBM1161",
    "UCS4BE",
    "IBMEUCJP",
    "STRK10482002",
    "IBM870",
    "MACROMAN",
    "ISO88594",
    "GB198880",
    "ISOIR110",
    "CCSID01147",
    "ISOIR157",
    "ISO88593",
    "IBM863",
    "CP866U",
    "BIGFIVE",
    "ISO885914",
    "IBM880",
    "ISO885913",
    "ISOIR126",
    "ISO2022KR",
    "IBM864",
    "SDECKANJI",
    "GREEK8",
    "IBM860",
    "CCSID01148",
    "CSIBM853",
    "CNGBISOIR165",
    "CP20866",
    "EBCDICCPWT",
    "GB18030",
    "MACARABIC",
    "LATIN8",
    "CCSID01140",
    "IBM01147",
    "IBM16804",
    "EBCDICDK277+EURO",
    "CSIBM424",
    "TIS620.25331",
    "CSIBM423",
    "CP00858",
    "EBCDICCPUS",
    "IBM00924",
    "EBCDICCPIS",
    "ISOIR148",
    "CCSID01146",
    "ISOIR138",
    "MSANSI",
    "MSTURK",
    "EBCDICCPYU",
    "MSCYRL",
    "IBM01148",
    "SHIFTJIS",
    "UNICODEFFFE",
    "VISCII1.11",
    "IBM01140",
    "ISO2022JP2",
    "CSIBM871",
    "JISC62261983",
    "EBCDICCPROECE",
    "ISO2022JP1",
    "CYRIILLICASIAN",
    "ISOIR87",
    "IBM01146",
    "CSWINDOWS1257",
    "EBCDICDE273+EURO",
    "MACICELAND",
    "LATIN6",
    "ECMA118",
    "ISOIR203",
    "CSWINDOWS1258",
    "CSIBM861",
    "JISX0201",
    "CSWINDOWS1250",
    "TIS620.2533",
    "CSIBM1163",
    "CSWINDOWS1256",
    "IBM1097",
    "EBCDICCPIT",
    "WINDOWS1257",
    "CSKSC56011987",
    "CSISO159JISX02121990",
    "ISO88599:1989",
    "CSIBM869",
    "WINDOWS1258",
    "EBCDICCPSE",
    "JISX02121990",
    "WINDOWS1250",
    "CSIBM00924",
    "EBCDICCPES",
    "WINDOWS1256",
    "MACROMANIA",
    "ISO2022JP2004",
    "CSSHIFTJIS",
    "CSISO885915",
    "CSUNICODE",
    "CSISO2022JP2",
    "LATIN10",
    "EBCDICCPGB",
    "IBM1047",
    "CSWINDOWS874",
    "MACCROATIAN",
    "SHIFTJIS2004",
    "KOKR.JOHAP92",
    "IBM866",
    "CSIBM865",
    "CSUNICODE11UTF7",
    "XMACHEBREW",
    "CYRILLICASIAN",
    "TIS6200",
    "CSIBM905",
    "UNICODE11UTF7",
    "EBCDICGB285+EURO",
    "ISO2022CN",
    "65000",
    "CSIBMTHAI",
    "IBM1046",
    "ISO2022JP3",
    "CSPC775BALTIC",
    "ISOIR226",
    "EBCDICIT280+EURO",
    "IBM1026",
    "DECKOREAN",
    "EBCDICCPBE",
    "CSIBM864",
    "CSIBM863",
    "ISOIR100",
    "EBCDICUS37+EURO",
    "CSIBM285",
    "ISO646CN",
    "EBCDICCPNL",
    "CSIBM037",
    "ISOIR166",
    "CSGB18030",
    "ISO2022JP",
    "GB18030:2022",
    "GEORGIANACADEMY",
    "EBCDICSE278+EURO",
    "CSIBM01147",
    "ISOIR230",
    "EBCDICES284+EURO",
    "CSEUCPKDFMTJAPANESE",
    "TIS620.25330",
    "CSIBM273",
    "CSISO2022KR",
    "ISOCELTIC",
    "CSIBM284",
    "MACINTOSH",
    "CSIBM01148",
    "ISO646JP",
    "GB18030:2005",
    "CSIBM01140",
    "CSPC862LATINHEBREW",
    "HPROMAN8",
    "ISO88597",
    "ISO10646UCS2",
    "MACCENTRALEUROPE",
    "ISO88592:1987",
    "ISO88591:1987",
    "UCS2INTERNAL",
    "ISO88598I",
    "MACTURKISH",
    "XMACTHAI",
    "JISX0212.19900",
    "UNICODEBIG",
    "CSPC8CODEPAGE1144",
    "CSISO2022CN",
    "CSIBM857",
    "ISO88598",
    "ISO885910:1992",
    "RISCOSLATIN1",
    "EBCDICINTERNATIONAL500+EURO",
    "ANSIX3.41968",
    "CSISO2022JP",
    "ISO885916:2001",
    "XCP50227",
    "ANSIX3.41986",
    "ISO885910",
    "EBCDICNO277+EURO",
    "CSIBM858",
    "ISO88596",
    "JISC62201969RO",
    "EBCDICLATIN9EURO",
    "UCS2SWAPPED",
    "SHIFTJISX0213",
    "ISO885916",
    "ISO88595:1988",
    "ISO885915:1998",
    "EBCDICCPNO",
    "ISO10646UCS4",
    "ISO88597:2003",
    "JISX02011976",
    "CSIBM297",
    "NEXTSTEP",
    "UCS4INTERNAL",
    "WINDOWS950",
    "ISO88594:1988",
    "ISO885914:1998",
    "ISO88593:1988",
    "ASMO708",
    "GEORGIANPS",
    "BIG5HKSCS",
    "IBM00858",
    "EBCDICIS871+EURO",
    "XMACARABIC",
    "CSHPROMAN8",
    "CSIBM500",
    "XMACICELANDIC",
    "BIG5HKSCS:2001",
    "CSISOLATIN2",
    "ISO646US",
    "CSISOLATIN1",
    "BIG5HKSCS:1999",
    "UCS4SWAPPED",
    "WINDOWS936",
    "JISX02081983",
    "XMACGREEK",
    "ISO646.IRV:1991",
    "MACUKRAINE",
    "WINDOWS874",
    "CSISOLATINHEBREW",
    "XMACUKRAINIAN",
    "CSISO57GB1988",
    "CSISO14JISC6220RO",
    "CSIBM1026",
    "CSISOLATIN5",
    "MULELAO1",
    "CCSID00858",
    "CSISO58GB231280",
    "ELOT928",
    "CSIBM1047",
    "CSISOLATINARABIC",
    "CSISOLATINCYRILLIC",
    "BIG5HKSCS:2004",
    "CSPC8CODEPAGE437",
    "CSISOLATIN4",
    "CSISOLATIN3",
    "XMACROMANIAN",
    "CSPC8CODEPAGE1146",
    "ISO2022CNEXT",
    "ISO88597:1987",
    "EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE",
    "CSIBM870",
    "CSIBM880",
    "ISO88598:1988",
    "ISO88596:1987",
    "JISX0208",
    "XMACTURKISH",
    "CSISOLATINGREEK",
    "CSIBM860",
    "ARMSCII8",
    "CSIBM277",
    "CSIBM866",
    "ISO2022JPMS",
    "JISX02081990",
    "CSIBM278",
    "CSISO87JISX0208",
    "CSIBM280",
    "BIG5HKSCS:2008",
    "CSISOLATIN10",
    "CSISOLATIN6",
    "MACCYRILLIC",
    "WINBALTRIM",
    "XMACCYRILLIC",
    "CSPC850MULTILINGUAL",
    "UNICODELITTLE",
    "XMACCROATIAN",
    "CSMACINTOSH"
  };
#define stringpool ((const char *) &stringpool_contents)

static const struct alias aliases[] =
  {
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 97 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str217, ei_iso2022_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 103 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str243, ei_iso2022_jpms},
#line 91 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str244, ei_cp932},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 718 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str304, ei_ebcdic1122},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 715 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str317, ei_ebcdic1112},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 504 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str327, ei_cp922},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 503 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str334, ei_cp922},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 702 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str350, ei_ebcdic1025},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 75 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str358, ei_c99},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 587 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str386, ei_cp869},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 516 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str414, ei_cp1129},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 313 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str433, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 307 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str459, ei_cp1251},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 168 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str485, ei_iso2022_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 597 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str508, ei_cp1125},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 755 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str521, ei_ebcdic1142},
    {-1}, {-1}, {-1}, {-1},
#line 727 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str526, ei_ebcdic1132},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 60 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str537, ei_utf32},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 746 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str547, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1},
#line 363 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str552, ei_cp1131},
    {-1},
#line 609 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str554, ei_ebcdic273},
    {-1},
#line 90 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str556, ei_cp932},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 592 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str572, ei_cp1125},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 306 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str587, ei_cp1251},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 329 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str629, ei_cp1255},
    {-1},
#line 812 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str631, ei_ebcdic1149},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 820 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str642, ei_ebcdic1155},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 159 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str661, ei_cp949},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 745 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str683, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1},
#line 362 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str688, ei_cp1131},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 330 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str701, ei_cp1255},
    {-1}, {-1}, {-1}, {-1},
#line 821 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str706, ei_ebcdic1155},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 480 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str712, ei_jisx0212},
    {-1}, {-1}, {-1},
#line 83 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str716, ei_euc_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 779 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str725, ei_ebcdic1145},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 513 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str738, ei_cp1124},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 721 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str748, ei_ebcdic1123},
    {-1},
#line 628 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str750, ei_ebcdic282},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 463 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str756, ei_iso646_jp},
#line 657 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str757, ei_ebcdic425},
    {-1}, {-1}, {-1},
#line 699 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str761, ei_ebcdic924},
    {-1}, {-1},
#line 656 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str764, ei_ebcdic425},
    {-1}, {-1}, {-1},
#line 698 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str768, ei_ebcdic924},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 780 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str789, ei_ebcdic1145},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 157 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str821, ei_euc_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 430 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str860, ei_pt154},
    {-1}, {-1}, {-1}, {-1},
#line 158 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str865, ei_cp949},
    {-1},
#line 324 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str867, ei_cp1254},
    {-1}, {-1}, {-1}, {-1},
#line 818 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str872, ei_ebcdic1154},
    {-1}, {-1}, {-1}, {-1},
#line 318 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str877, ei_cp1253},
    {-1}, {-1}, {-1}, {-1},
#line 815 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str882, ei_ebcdic1153},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 679 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str893, ei_ebcdic871},
    {-1}, {-1}, {-1}, {-1},
#line 413 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str898, ei_mac_thai},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 654 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str923, ei_ebcdic424},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 653 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str930, ei_ebcdic424},
    {-1}, {-1},
#line 649 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str933, ei_ebcdic423},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 648 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str940, ei_ebcdic423},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 772 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str955, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 764 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str965, ei_ebcdic1143},
    {-1},
#line 189 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str967, ei_iso8859_2},
    {-1}, {-1},
#line 439 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str970, ei_cp1133},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 373 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str982, ei_mac_centraleurope},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 181 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str993, ei_iso8859_1},
    {-1},
#line 506 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str995, ei_cp943},
#line 515 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str996, ei_cp1129},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 639 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1018, ei_ebcdic285},
    {-1},
#line 160 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1020, ei_cp949},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 110 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1033, ei_euc_cn},
    {-1}, {-1},
#line 629 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1036, ei_ebcdic282},
    {-1},
#line 845 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1038, ei_ebcdic4971},
    {-1},
#line 275 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1040, ei_iso8859_15},
    {-1},
#line 164 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1042, ei_johab},
    {-1},
#line 848 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1044, ei_ebcdic12712},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 250 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1077, ei_iso8859_9},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 539 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1096, ei_cp775},
    {-1}, {-1}, {-1}, {-1},
#line 39 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1101, ei_ucs2be},
    {-1}, {-1},
#line 524 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1104, ei_cp1162},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 717 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1119, ei_ebcdic1122},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 520 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1130, ei_cp1161},
    {-1},
#line 714 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1132, ei_ebcdic1112},
    {-1}, {-1},
#line 683 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1135, ei_ebcdic875},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 179 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1144, ei_iso8859_1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 178 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1159, ei_iso8859_1},
    {-1}, {-1},
#line 68 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1162, ei_utf7},
    {-1}, {-1}, {-1},
#line 341 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1166, ei_cp1257},
    {-1}, {-1}, {-1},
#line 543 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1170, ei_cp852},
    {-1},
#line 847 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1172, ei_ebcdic12712},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 826 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1179, ei_ebcdic1157},
    {-1}, {-1}, {-1}, {-1},
#line 634 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1184, ei_ebcdic284},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 186 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1194, ei_iso8859_2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 129 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1207, ei_hz},
    {-1}, {-1}, {-1}, {-1},
#line 176 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1212, ei_iso8859_1},
#line 811 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1213, ei_ebcdic1149},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 431 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1220, ei_pt154},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 82 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1227, ei_euc_jp},
    {-1},
#line 38 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1229, ei_ucs2be},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 212 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1235, ei_iso8859_5},
    {-1}, {-1}, {-1}, {-1},
#line 312 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1240, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 112 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1255, ei_ces_gbk},
    {-1}, {-1}, {-1},
#line 720 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1259, ei_ebcdic1123},
    {-1}, {-1},
#line 795 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1262, ei_ebcdic1147},
    {-1}, {-1}, {-1},
#line 519 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1266, ei_cp1161},
#line 729 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1267, ei_ebcdic1137},
    {-1}, {-1}, {-1},
#line 701 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1271, ei_ebcdic1025},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 512 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1293, ei_cp1124},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 452 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1301, ei_cp874},
    {-1}, {-1},
#line 636 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1304, ei_ebcdic285},
    {-1}, {-1}, {-1},
#line 838 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1308, ei_ebcdic1165},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 486 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1314, ei_iso646_cn},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 194 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1333, ei_iso8859_3},
    {-1}, {-1},
#line 754 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1336, ei_ebcdic1142},
    {-1}, {-1},
#line 49 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1339, ei_ucs4be},
    {-1},
#line 726 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1341, ei_ebcdic1132},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 105 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1350, ei_euc_cn},
    {-1}, {-1}, {-1},
#line 507 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1354, ei_cp943},
    {-1},
#line 59 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1356, ei_utf32},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 418 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1363, ei_hp_roman8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 839 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1372, ei_ebcdic1165},
    {-1}, {-1}, {-1},
#line 156 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1376, ei_euc_kr},
    {-1}, {-1}, {-1},
#line 317 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1380, ei_cp1253},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 814 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1393, ei_ebcdic1153},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 205 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1401, ei_iso8859_4},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 197 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1411, ei_iso8859_3},
    {-1}, {-1},
#line 323 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1414, ei_cp1254},
    {-1}, {-1}, {-1},
#line 21 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1418, ei_ascii},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 817 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1427, ei_ebcdic1154},
    {-1}, {-1},
#line 844 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1430, ei_ebcdic4971},
    {-1}, {-1},
#line 296 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1433, ei_cp1250},
    {-1}, {-1}, {-1}, {-1},
#line 552 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1438, ei_cp855},
    {-1}, {-1},
#line 608 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1441, ei_ebcdic273},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 633 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1470, ei_ebcdic284},
    {-1}, {-1}, {-1}, {-1},
#line 163 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1475, ei_johab},
#line 763 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1476, ei_ebcdic1143},
    {-1}, {-1}, {-1}, {-1},
#line 438 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1481, ei_cp1133},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 644 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1499, ei_ebcdic297},
    {-1},
#line 467 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1501, ei_jisx0201},
    {-1}, {-1},
#line 416 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1504, ei_hp_roman8},
    {-1},
#line 151 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1506, ei_euc_kr},
    {-1}, {-1}, {-1},
#line 771 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1510, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 737 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1529, ei_ebcdic1140},
#line 541 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1530, ei_cp852},
    {-1}, {-1}, {-1},
#line 723 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1534, ei_ebcdic1130},
    {-1}, {-1}, {-1},
#line 836 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1538, ei_ebcdic1164},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 615 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1546, ei_ebcdic277},
    {-1},
#line 528 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1548, ei_cp1163},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 353 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1569, ei_cp862},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 569 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1595, ei_cp861},
    {-1},
#line 366 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1597, ei_mac_roman},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 76 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1603, ei_java},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 548 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1614, ei_cp853},
    {-1}, {-1},
#line 846 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1617, ei_ebcdic12712},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 621 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1624, ei_ebcdic278},
    {-1}, {-1}, {-1}, {-1},
#line 381 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1629, ei_mac_croatian},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 310 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1637, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 126 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1653, ei_iso2022_cn},
    {-1},
#line 401 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1655, ei_mac_turkish},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 586 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1679, ei_cp869},
    {-1}, {-1},
#line 706 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1682, ei_ebcdic1026},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 377 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1700, ei_mac_iceland},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 590 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1719, ei_cp869},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 713 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1729, ei_ebcdic1112},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 710 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1735, ei_ebcdic1047},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 663 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1741, ei_ebcdic500},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 261 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1750, ei_iso8859_13},
    {-1},
#line 30 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1752, ei_ucs2},
    {-1}, {-1},
#line 346 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1755, ei_cp1258},
    {-1},
#line 262 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1757, ei_iso8859_13},
    {-1}, {-1}, {-1}, {-1},
#line 155 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1762, ei_euc_kr},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 829 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1768, ei_ebcdic1158},
#line 95 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1769, ei_iso2022_jp},
#line 643 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1770, ei_ebcdic297},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 678 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1780, ei_ebcdic871},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 550 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1798, ei_cp855},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 188 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1820, ei_iso8859_2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 247 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1829, ei_iso8859_9},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 356 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1836, ei_cp862},
#line 582 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1837, ei_cp865},
    {-1}, {-1}, {-1},
#line 27 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1841, ei_utf8},
#line 530 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1842, ei_cp437},
    {-1},
#line 116 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1844, ei_cp936},
    {-1},
#line 180 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1846, ei_iso8859_1},
    {-1}, {-1}, {-1}, {-1},
#line 803 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1851, ei_ebcdic1148},
    {-1}, {-1}, {-1}, {-1},
#line 285 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1856, ei_koi8_r},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 570 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1862, ei_cp861},
#line 712 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1863, ei_ebcdic1097},
    {-1}, {-1},
#line 750 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1866, ei_ebcdic1142},
    {-1}, {-1},
#line 342 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1869, ei_cp1257},
    {-1}, {-1}, {-1}, {-1},
#line 827 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1874, ei_ebcdic1157},
#line 843 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1875, ei_ebcdic4971},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 48 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1891, ei_ucs4be},
#line 742 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1892, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 510 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1899, ei_cp1046},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 328 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1905, ei_cp1255},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 139 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1913, ei_ces_big5},
    {-1}, {-1},
#line 405 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1916, ei_mac_hebrew},
    {-1},
#line 819 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1918, ei_ebcdic1155},
#line 523 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1919, ei_cp1162},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 133 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1929, ei_euc_tw},
#line 249 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1930, ei_iso8859_9},
    {-1}, {-1}, {-1}, {-1},
#line 335 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1935, ei_cp1256},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 589 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1946, ei_cp869},
#line 347 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1947, ei_cp1258},
#line 823 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1948, ei_ebcdic1156},
    {-1}, {-1}, {-1},
#line 830 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1952, ei_ebcdic1158},
    {-1}, {-1}, {-1},
#line 14 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1956, ei_ascii},
#line 796 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1957, ei_ebcdic1147},
    {-1}, {-1}, {-1},
#line 655 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1961, ei_ebcdic425},
#line 730 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1962, ei_ebcdic1137},
    {-1}, {-1},
#line 424 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1965, ei_pt154},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 545 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1974, ei_cp853},
    {-1},
#line 808 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1976, ei_ebcdic1149},
    {-1}, {-1},
#line 571 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1979, ei_cp861},
    {-1}, {-1}, {-1},
#line 538 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1983, ei_cp775},
    {-1},
#line 301 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1985, ei_cp1250},
    {-1}, {-1}, {-1}, {-1},
#line 376 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1990, ei_mac_iceland},
    {-1}, {-1}, {-1},
#line 202 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1994, ei_iso8859_4},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 580 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2003, ei_cp864},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 574 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2013, ei_cp863},
    {-1}, {-1}, {-1},
#line 96 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2017, ei_iso2022_jp},
    {-1}, {-1},
#line 144 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2020, ei_cp950},
    {-1},
#line 682 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2022, ei_ebcdic875},
    {-1}, {-1},
#line 709 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2025, ei_ebcdic1047},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 787 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2031, ei_ebcdic1146},
    {-1},
#line 336 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2033, ei_cp1256},
    {-1},
#line 804 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2035, ei_ebcdic1148},
    {-1}, {-1},
#line 824 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2038, ei_ebcdic1156},
    {-1}, {-1}, {-1}, {-1},
#line 102 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2043, ei_iso2022_jpms},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 862 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2055, ei_atarist},
    {-1}, {-1}, {-1},
#line 527 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2059, ei_cp1163},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 321 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2071, ei_cp1254},
    {-1},
#line 738 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2073, ei_ebcdic1140},
    {-1},
#line 42 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2075, ei_ucs2le},
    {-1}, {-1},
#line 724 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2078, ei_ebcdic1130},
    {-1}, {-1}, {-1},
#line 409 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2082, ei_mac_arabic},
    {-1},
#line 816 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2084, ei_ebcdic1154},
    {-1}, {-1}, {-1},
#line 211 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2088, ei_iso8859_5},
    {-1}, {-1}, {-1}, {-1},
#line 835 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2093, ei_ebcdic1164},
#line 813 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2094, ei_ebcdic1153},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 584 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2104, ei_cp865},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 169 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2110, ei_dec_kanji},
    {-1},
#line 832 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2112, ei_ebcdic1160},
    {-1}, {-1}, {-1},
#line 137 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2116, ei_euc_tw},
    {-1}, {-1}, {-1}, {-1},
#line 788 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2121, ei_ebcdic1146},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 104 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2130, ei_euc_cn},
    {-1}, {-1}, {-1},
#line 776 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2134, ei_ebcdic1145},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 532 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2154, ei_cp437},
    {-1},
#line 115 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2156, ei_cp936},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 498 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2175, ei_ksc5601},
    {-1}, {-1}, {-1}, {-1},
#line 138 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2180, ei_euc_tw},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 44 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2186, ei_ucs4},
    {-1},
#line 451 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2188, ei_cp874},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 54 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2225, ei_utf16},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 204 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2254, ei_iso8859_4},
    {-1},
#line 142 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2256, ei_ces_big5},
    {-1}, {-1}, {-1},
#line 28 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2260, ei_utf8},
    {-1}, {-1}, {-1},
#line 196 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2264, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 579 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2270, ei_cp864},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 576 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2280, ei_cp863},
    {-1}, {-1}, {-1}, {-1},
#line 167 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2285, ei_iso2022_kr},
    {-1}, {-1}, {-1}, {-1},
#line 521 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2290, ei_cp1162},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 768 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2300, ei_ebcdic1144},
    {-1},
#line 626 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2302, ei_ebcdic280},
#line 88 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2303, ei_sjis},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 77 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2309, ei_euc_jp},
#line 759 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2310, ei_ebcdic1143},
#line 132 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2311, ei_hz},
#line 493 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2312, ei_ksc5601},
#line 725 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2313, ei_ebcdic1132},
    {-1}, {-1},
#line 517 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2316, ei_cp1161},
    {-1}, {-1}, {-1}, {-1},
#line 393 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2321, ei_mac_ukraine},
    {-1}, {-1}, {-1}, {-1},
#line 111 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2326, ei_euc_cn},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 640 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2336, ei_ebcdic297},
    {-1}, {-1},
#line 361 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2339, ei_cp1131},
    {-1}, {-1}, {-1},
#line 535 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2343, ei_cp737},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 277 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2349, ei_iso8859_15},
    {-1}, {-1},
#line 747 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2352, ei_ebcdic1142},
    {-1}, {-1}, {-1}, {-1},
#line 404 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2357, ei_mac_hebrew},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 739 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2378, ei_ebcdic1141},
    {-1},
#line 145 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2380, ei_cp950},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 716 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2395, ei_ebcdic1122},
    {-1}, {-1}, {-1}, {-1},
#line 428 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2400, ei_pt154},
    {-1}, {-1},
#line 232 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2403, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 502 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2410, ei_cp922},
    {-1}, {-1}, {-1},
#line 130 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2414, ei_hz},
    {-1}, {-1}, {-1}, {-1},
#line 674 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2419, ei_ebcdic870},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 269 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2429, ei_iso8859_14},
#line 380 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2430, ei_mac_croatian},
    {-1}, {-1},
#line 614 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2433, ei_ebcdic277},
    {-1}, {-1},
#line 236 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2436, ei_iso8859_8},
#line 385 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2437, ei_mac_romania},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 400 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2456, ei_mac_turkish},
    {-1}, {-1}, {-1},
#line 668 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2460, ei_ebcdic838},
    {-1},
#line 805 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2462, ei_ebcdic1149},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 23 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2470, ei_ascii},
    {-1}, {-1}, {-1},
#line 107 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2474, ei_euc_cn},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 240 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2481, ei_iso8859_8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 635 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2501, ei_ebcdic285},
    {-1}, {-1}, {-1},
#line 514 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2505, ei_cp1129},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 620 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2511, ei_ebcdic278},
    {-1}, {-1},
#line 641 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2514, ei_ebcdic297},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 141 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2520, ei_ces_big5},
    {-1}, {-1},
#line 408 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2523, ei_mac_arabic},
    {-1},
#line 263 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2525, ei_iso8859_13},
    {-1}, {-1},
#line 850 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2528, ei_ebcdic16804},
    {-1},
#line 289 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2530, ei_koi8_u},
    {-1}, {-1}, {-1},
#line 255 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2534, ei_iso8859_10},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 65 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2556, ei_utf7},
    {-1},
#line 837 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2558, ei_ebcdic1165},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 221 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2567, ei_iso8859_6},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 689 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2575, ei_ebcdic905},
    {-1},
#line 705 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2577, ei_ebcdic1026},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 692 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2584, ei_ebcdic924},
    {-1}, {-1}, {-1},
#line 625 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2588, ei_ebcdic280},
#line 134 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2589, ei_euc_tw},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 646 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2599, ei_ebcdic423},
    {-1}, {-1}, {-1}, {-1},
#line 749 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2604, ei_ebcdic1142},
    {-1},
#line 556 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2606, ei_cp857},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 841 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2614, ei_ebcdic1166},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 773 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2620, ei_ebcdic1145},
    {-1},
#line 278 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2622, ei_iso8859_15},
    {-1}, {-1}, {-1}, {-1},
#line 43 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2627, ei_ucs2le},
    {-1}, {-1},
#line 741 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2630, ei_ebcdic1141},
    {-1},
#line 89 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2632, ei_cp932},
    {-1},
#line 26 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2634, ei_utf8},
#line 549 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2635, ei_cp855},
    {-1},
#line 267 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2637, ei_iso8859_14},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 534 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2655, ei_cp737},
#line 833 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2656, ei_ebcdic1160},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 591 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2663, ei_cp1125},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 170 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2680, ei_dec_hanyu},
    {-1}, {-1}, {-1},
#line 560 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2684, ei_cp858},
    {-1}, {-1}, {-1},
#line 161 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2688, ei_johab},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 412 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2698, ei_mac_thai},
    {-1}, {-1}, {-1}, {-1},
#line 242 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2703, ei_iso8859_8},
#line 842 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2704, ei_ebcdic1166},
    {-1},
#line 61 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2706, ei_utf32be},
    {-1}, {-1},
#line 859 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2709, ei_tds565},
    {-1},
#line 425 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2711, ei_pt154},
#line 645 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2712, ei_ebcdic423},
#line 604 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2713, ei_ebcdic037},
#line 807 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2714, ei_ebcdic1149},
    {-1},
#line 481 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2716, ei_jisx0212},
    {-1}, {-1}, {-1},
#line 529 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2720, ei_cp437},
    {-1},
#line 351 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2722, ei_cp850},
#line 748 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2723, ei_ebcdic1142},
#line 834 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2724, ei_ebcdic1164},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 525 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2734, ei_cp1163},
    {-1},
#line 595 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2736, ei_cp1125},
#line 24 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2737, ei_ascii},
    {-1}, {-1}, {-1},
#line 662 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2741, ei_ebcdic500},
    {-1}, {-1}, {-1}, {-1},
#line 650 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2746, ei_ebcdic424},
#line 53 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2747, ei_utf16},
    {-1},
#line 740 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2749, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 542 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2759, ei_cp852},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 283 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2765, ei_iso8859_16},
    {-1},
#line 505 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2767, ei_cp943},
    {-1}, {-1},
#line 500 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2770, ei_cp856},
    {-1},
#line 667 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2772, ei_ebcdic838},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 372 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2782, ei_mac_centraleurope},
    {-1}, {-1}, {-1},
#line 765 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2786, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 605 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2793, ei_ebcdic037},
#line 509 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2794, ei_cp1046},
    {-1},
#line 756 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2796, ei_ebcdic1143},
    {-1},
#line 264 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2798, ei_iso8859_13},
#line 496 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2799, ei_ksc5601},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 64 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2809, ei_utf32le},
    {-1}, {-1}, {-1}, {-1},
#line 131 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2814, ei_hz},
    {-1}, {-1}, {-1},
#line 46 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2818, ei_ucs4},
    {-1},
#line 851 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2820, ei_ebcdic16804},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 511 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2829, ei_cp1124},
    {-1}, {-1}, {-1},
#line 806 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2833, ei_ebcdic1149},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 719 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2839, ei_ebcdic1123},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 62 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2859, ei_utf32be},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 51 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2865, ei_ucs4le},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 775 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2872, ei_ebcdic1145},
    {-1}, {-1},
#line 660 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2875, ei_ebcdic500},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 462 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2892, ei_iso646_jp},
#line 457 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2893, ei_tcvn},
#line 122 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2894, ei_gb18030_2022},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 793 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2917, ei_ebcdic1147},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 458 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2933, ei_tcvn},
    {-1}, {-1}, {-1},
#line 106 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2937, ei_euc_cn},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 554 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2966, ei_cp857},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 136 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2985, ei_euc_tw},
    {-1},
#line 175 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2987, ei_iso8859_1},
    {-1},
#line 473 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2989, ei_jisx0208},
    {-1},
#line 774 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2991, ei_ebcdic1145},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 610 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2999, ei_ebcdic277},
    {-1}, {-1},
#line 174 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3002, ei_iso8859_1},
#line 152 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3003, ei_euc_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 334 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3011, ei_cp1256},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 305 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3027, ei_cp1251},
    {-1},
#line 246 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3029, ei_iso8859_9},
    {-1},
#line 121 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3031, ei_gb18030_2022},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 767 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3038, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 558 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3044, ei_cp858},
    {-1}, {-1}, {-1},
#line 758 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3048, ei_ebcdic1143},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 688 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3059, ei_ebcdic880},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 340 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3073, ei_cp1257},
    {-1}, {-1}, {-1},
#line 402 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3077, ei_mac_hebrew},
    {-1}, {-1}, {-1},
#line 218 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3081, ei_iso8859_6},
#line 349 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3082, ei_cp850},
    {-1},
#line 389 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3084, ei_mac_cyrillic},
    {-1},
#line 825 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3086, ei_ebcdic1157},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 627 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3112, ei_ebcdic282},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 565 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3121, ei_cp860},
    {-1},
#line 208 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3123, ei_iso8859_5},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 501 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3130, ei_cp856},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 695 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3148, ei_ebcdic924},
    {-1}, {-1},
#line 345 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3151, ei_cp1258},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 766 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3157, ei_ebcdic1144},
#line 456 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3158, ei_tcvn},
#line 446 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3159, ei_tis620},
    {-1}, {-1}, {-1}, {-1},
#line 828 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3164, ei_ebcdic1158},
    {-1}, {-1},
#line 757 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3167, ei_ebcdic1143},
    {-1},
#line 358 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3169, ei_cp866},
    {-1}, {-1},
#line 553 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3172, ei_cp857},
    {-1}, {-1}, {-1}, {-1},
#line 675 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3177, ei_ebcdic871},
    {-1},
#line 29 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3179, ei_utf8},
#line 536 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3180, ei_cp775},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 299 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3189, ei_cp1250},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 617 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3196, ei_ebcdic278},
#line 153 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3197, ei_euc_kr},
    {-1}, {-1},
#line 369 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3200, ei_mac_roman},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 852 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3206, ei_euc_jisx0213},
#line 437 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3207, ei_cp1133},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 606 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3213, ei_ebcdic273},
    {-1}, {-1}, {-1},
#line 286 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3217, ei_koi8_r},
    {-1},
#line 680 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3219, ei_ebcdic875},
    {-1},
#line 533 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3221, ei_cp737},
#line 495 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3222, ei_ksc5601},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 600 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3231, ei_ebcdic037},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 333 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3237, ei_cp1256},
    {-1}, {-1},
#line 288 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3240, ei_koi8_r},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 540 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3246, ei_cp852},
    {-1},
#line 397 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3248, ei_mac_greek},
#line 108 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3249, ei_euc_cn},
#line 822 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3250, ei_ebcdic1156},
    {-1},
#line 546 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3252, ei_cp853},
    {-1}, {-1},
#line 25 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3255, ei_ascii},
#line 231 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3256, ei_iso8859_7},
    {-1}, {-1},
#line 568 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3259, ei_cp861},
    {-1}, {-1},
#line 291 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3262, ei_koi8_ru},
    {-1}, {-1}, {-1},
#line 229 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3266, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1},
#line 216 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3271, ei_iso8859_6},
#line 858 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3272, ei_big5_2003},
    {-1},
#line 184 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3274, ei_iso8859_2},
    {-1},
#line 434 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3276, ei_rk1048},
    {-1}, {-1},
#line 598 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3279, ei_ebcdic037},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 630 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3286, ei_ebcdic284},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 690 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3294, ei_ebcdic905},
#line 113 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3295, ei_cp936},
    {-1},
#line 55 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3297, ei_utf16be},
    {-1}, {-1},
#line 259 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3300, ei_iso8859_13},
#line 581 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3301, ei_cp865},
#line 792 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3302, ei_ebcdic1147},
#line 20 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3303, ei_ascii},
#line 63 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3304, ei_utf32le},
#line 622 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3305, ei_ebcdic280},
#line 670 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3306, ei_ebcdic870},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 415 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3321, ei_hp_roman8},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 450 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3327, ei_cp874},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 239 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3334, ei_iso8859_8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 687 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3345, ei_ebcdic880},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 209 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3355, ei_iso8859_5},
    {-1}, {-1},
#line 192 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3358, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 300 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3366, ei_cp1250},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 294 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3372, ei_koi8_ru},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 800 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3380, ei_ebcdic1148},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 544 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3386, ei_cp853},
    {-1},
#line 567 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3388, ei_cp860},
    {-1},
#line 861 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3390, ei_atarist},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 85 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3400, ei_sjis},
    {-1}, {-1}, {-1}, {-1},
#line 355 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3405, ei_cp862},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 594 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3412, ei_cp1125},
    {-1}, {-1}, {-1},
#line 432 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3416, ei_rk1048},
#line 52 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3417, ei_ucs4le},
#line 734 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3418, ei_ebcdic1140},
    {-1},
#line 220 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3420, ei_iso8859_6},
    {-1},
#line 423 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3422, ei_koi8_t},
    {-1}, {-1}, {-1},
#line 700 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3426, ei_ebcdic1025},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 360 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3436, ei_cp866},
    {-1}, {-1},
#line 348 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3439, ei_cp850},
    {-1}, {-1},
#line 392 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3442, ei_mac_ukraine},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 125 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3453, ei_iso2022_cn},
    {-1}, {-1}, {-1}, {-1},
#line 658 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3458, ei_ebcdic500},
    {-1}, {-1}, {-1},
#line 295 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3462, ei_koi8_ru},
    {-1}, {-1}, {-1},
#line 784 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3466, ei_ebcdic1146},
    {-1}, {-1}, {-1}, {-1},
#line 753 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3471, ei_ebcdic1142},
    {-1},
#line 685 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3473, ei_ebcdic880},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 22 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3485, ei_ascii},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 744 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3497, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 274 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3517, ei_iso8859_15},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 371 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3523, ei_mac_centraleurope},
    {-1},
#line 388 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3525, ei_mac_cyrillic},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 455 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3535, ei_viscii},
    {-1}, {-1}, {-1}, {-1},
#line 491 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3540, ei_isoir165},
    {-1}, {-1}, {-1},
#line 316 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3544, ei_cp1253},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 241 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3556, ei_iso8859_8},
    {-1},
#line 384 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3558, ei_mac_romania},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 853 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3564, ei_euc_jisx0213},
    {-1},
#line 260 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3566, ei_iso8859_13},
    {-1}, {-1},
#line 94 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3569, ei_iso2022_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 611 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3579, ei_ebcdic277},
#line 394 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3580, ei_mac_greek},
#line 810 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3581, ei_ebcdic1149},
    {-1}, {-1}, {-1},
#line 35 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3585, ei_ucs2be},
    {-1}, {-1},
#line 616 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3588, ei_ebcdic278},
    {-1}, {-1},
#line 681 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3591, ei_ebcdic875},
    {-1}, {-1},
#line 477 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3594, ei_jisx0212},
    {-1}, {-1}, {-1}, {-1},
#line 182 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3599, ei_iso8859_2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 309 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3609, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 135 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3620, ei_euc_tw},
    {-1},
#line 303 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3622, ei_cp1251},
    {-1}, {-1},
#line 171 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3625, ei_iso8859_1},
#line 694 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3626, ei_ebcdic924},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 427 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3638, ei_pt154},
    {-1},
#line 185 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3640, ei_iso8859_2},
#line 368 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3641, ei_mac_roman},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 13 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3648, ei_ascii},
    {-1}, {-1}, {-1},
#line 257 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3652, ei_iso8859_11},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 488 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3687, ei_gb2312},
    {-1},
#line 396 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3689, ei_mac_greek},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 58 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3697, ei_utf16le},
    {-1}, {-1}, {-1},
#line 308 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3701, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 243 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3709, ei_iso8859_9},
    {-1}, {-1}, {-1}, {-1},
#line 302 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3714, ei_cp1251},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 40 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3722, ei_ucs2le},
    {-1}, {-1}, {-1},
#line 410 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3726, ei_mac_thai},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 468 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3733, ei_jisx0201},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 778 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3739, ei_ebcdic1145},
    {-1}, {-1}, {-1},
#line 326 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3743, ei_cp1255},
    {-1}, {-1}, {-1},
#line 56 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3747, ei_utf16be},
    {-1},
#line 728 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3749, ei_ebcdic1137},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 557 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3761, ei_cp858},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 33 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3772, ei_ucs2be},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 193 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3780, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 69 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3786, ei_utf7},
    {-1},
#line 789 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3788, ei_ebcdic1147},
#line 585 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3789, ei_cp869},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 435 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3803, ei_rk1048},
#line 293 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3804, ei_koi8_ru},
#line 17 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3805, ei_ascii},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 201 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3814, ei_iso8859_4},
#line 485 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3815, ei_iso646_cn},
    {-1}, {-1}, {-1}, {-1},
#line 593 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3820, ei_cp1125},
#line 109 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3821, ei_euc_cn},
    {-1}, {-1}, {-1}, {-1},
#line 320 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3826, ei_cp1254},
#line 665 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3827, ei_ebcdic838},
    {-1}, {-1}, {-1},
#line 315 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3831, ei_cp1253},
    {-1}, {-1},
#line 453 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3834, ei_viscii},
#line 325 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3835, ei_cp1255},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 831 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3842, ei_ebcdic1160},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 664 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3849, ei_ebcdic838},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 459 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3855, ei_tcvn},
#line 440 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3856, ei_tis620},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 722 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3865, ei_ebcdic1130},
#line 797 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3866, ei_ebcdic1148},
#line 206 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3867, ei_iso8859_5},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 86 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3877, ei_sjis},
#line 327 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3878, ei_cp1255},
    {-1}, {-1}, {-1},
#line 472 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3882, ei_jisx0208},
    {-1}, {-1},
#line 494 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3885, ei_ksc5601},
    {-1}, {-1}, {-1}, {-1},
#line 840 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3890, ei_ebcdic1166},
#line 290 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3891, ei_koi8_u},
#line 651 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3892, ei_ebcdic424},
#line 489 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3893, ei_gb2312},
#line 271 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3894, ei_iso8859_15},
#line 57 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3895, ei_utf16le},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 731 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3904, ei_ebcdic1140},
    {-1}, {-1}, {-1},
#line 215 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3908, ei_iso8859_6},
    {-1}, {-1},
#line 36 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3911, ei_ucs2be},
#line 352 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3912, ei_cp862},
    {-1}, {-1},
#line 762 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3915, ei_ebcdic1143},
#line 292 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3916, ei_koi8_ru},
    {-1},
#line 319 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3918, ei_cp1254},
    {-1}, {-1},
#line 760 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3921, ei_ebcdic1143},
    {-1},
#line 314 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3923, ei_cp1253},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 50 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3939, ei_ucs4le},
    {-1},
#line 499 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3941, ei_cp856},
    {-1},
#line 551 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3943, ei_cp855},
#line 522 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3944, ei_cp1162},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 781 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3952, ei_ebcdic1146},
    {-1}, {-1}, {-1}, {-1},
#line 442 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3957, ei_tis620},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 518 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3970, ei_cp1161},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 47 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3989, ei_ucs4be},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 80 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4000, ei_euc_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 433 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4007, ei_rk1048},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 669 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4023, ei_ebcdic870},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 364 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4030, ei_mac_roman},
    {-1}, {-1},
#line 198 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4033, ei_iso8859_4},
    {-1},
#line 483 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4035, ei_iso646_cn},
    {-1},
#line 200 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4037, ei_iso8859_4},
    {-1}, {-1},
#line 791 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4040, ei_ebcdic1147},
    {-1},
#line 253 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4042, ei_iso8859_10},
#line 190 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4043, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 573 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4052, ei_cp863},
#line 596 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4053, ei_cp1125},
#line 140 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4054, ei_ces_big5},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 265 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4060, ei_iso8859_14},
    {-1},
#line 684 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4062, ei_ebcdic880},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 258 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4070, ei_iso8859_13},
    {-1},
#line 225 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4072, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 165 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4078, ei_iso2022_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 577 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4086, ei_cp864},
    {-1}, {-1}, {-1},
#line 81 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4090, ei_euc_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 228 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4104, ei_iso8859_7},
#line 564 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4105, ei_cp860},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 799 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4118, ei_ebcdic1148},
#line 547 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4119, ei_cp853},
#line 492 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4120, ei_isoir165},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 287 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4135, ei_koi8_r},
    {-1},
#line 601 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4137, ei_ebcdic037},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 118 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4145, ei_gb18030_2022},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 406 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4153, ei_mac_arabic},
    {-1},
#line 268 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4155, ei_iso8859_14},
#line 733 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4156, ei_ebcdic1140},
    {-1}, {-1},
#line 790 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4159, ei_ebcdic1147},
    {-1}, {-1}, {-1}, {-1},
#line 849 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4164, ei_ebcdic16804},
#line 751 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4165, ei_ebcdic1142},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 652 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4174, ei_ebcdic424},
    {-1}, {-1}, {-1}, {-1},
#line 444 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4179, ei_tis620},
    {-1}, {-1}, {-1}, {-1},
#line 647 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4184, ei_ebcdic423},
#line 562 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4185, ei_cp858},
    {-1}, {-1},
#line 599 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4188, ei_ebcdic037},
    {-1}, {-1},
#line 693 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4191, ei_ebcdic924},
#line 676 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4192, ei_ebcdic871},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 245 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4203, ei_iso8859_9},
#line 783 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4204, ei_ebcdic1146},
    {-1}, {-1}, {-1},
#line 235 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4208, ei_iso8859_8},
    {-1}, {-1}, {-1},
#line 311 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4212, ei_cp1252},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 322 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4226, ei_cp1254},
    {-1}, {-1},
#line 672 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4229, ei_ebcdic870},
    {-1},
#line 304 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4231, ei_cp1251},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 798 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4237, ei_ebcdic1148},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 84 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4248, ei_sjis},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 37 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4257, ei_ucs2be},
    {-1}, {-1}, {-1}, {-1},
#line 454 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4262, ei_viscii},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 732 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4275, ei_ebcdic1140},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 99 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4283, ei_iso2022_jp2},
    {-1},
#line 677 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4285, ei_ebcdic871},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 475 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4294, ei_jisx0208},
    {-1},
#line 671 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4296, ei_ebcdic870},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 98 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4309, ei_iso2022_jp1},
    {-1}, {-1}, {-1}, {-1},
#line 429 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4314, ei_pt154},
    {-1}, {-1}, {-1},
#line 474 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4318, ei_jisx0208},
    {-1}, {-1}, {-1}, {-1},
#line 782 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4323, ei_ebcdic1146},
    {-1}, {-1}, {-1},
#line 338 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4327, ei_cp1257},
#line 743 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4328, ei_ebcdic1141},
    {-1}, {-1}, {-1}, {-1},
#line 374 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4333, ei_mac_iceland},
    {-1},
#line 254 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4335, ei_iso8859_10},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 226 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4351, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 273 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4358, ei_iso8859_15},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 344 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4366, ei_cp1258},
#line 572 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4367, ei_cp861},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 465 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4383, ei_jisx0201},
    {-1},
#line 297 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4385, ei_cp1250},
    {-1},
#line 447 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4387, ei_tis620},
#line 526 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4388, ei_cp1163},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 332 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4409, ei_cp1256},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 711 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4416, ei_ebcdic1097},
    {-1},
#line 623 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4418, ei_ebcdic280},
#line 337 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4419, ei_cp1257},
    {-1},
#line 497 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4421, ei_ksc5601},
#line 482 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4422, ei_jisx0212},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 244 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4448, ei_iso8859_9},
    {-1}, {-1},
#line 588 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4451, ei_cp869},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 343 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4458, ei_cp1258},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 618 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4467, ei_ebcdic278},
#line 479 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4468, ei_jisx0212},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 298 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4477, ei_cp1250},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 697 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4493, ei_ebcdic924},
#line 631 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4494, ei_ebcdic284},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 331 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4501, ei_cp1256},
#line 382 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4502, ei_mac_romania},
#line 857 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4503, ei_iso2022_jp3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 87 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4517, ei_sjis},
    {-1}, {-1}, {-1},
#line 276 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4521, ei_iso8859_15},
    {-1}, {-1},
#line 32 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4524, ei_ucs2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 100 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4539, ei_iso2022_jp2},
#line 282 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4540, ei_iso8859_16},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 637 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4549, ei_ebcdic285},
    {-1},
#line 707 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4551, ei_ebcdic1047},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 449 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4569, ei_cp874},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 378 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4578, ei_mac_croatian},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 855 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4590, ei_shift_jisx0213},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 162 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4599, ei_johab},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 357 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4607, ei_cp866},
    {-1},
#line 583 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4609, ei_cp865},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 67 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4620, ei_utf7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 403 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4639, ei_mac_hebrew},
    {-1}, {-1},
#line 426 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4642, ei_pt154},
    {-1}, {-1}, {-1},
#line 441 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4646, ei_tis620},
    {-1}, {-1},
#line 691 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4649, ei_ebcdic905},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 66 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4655, ei_utf7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 785 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4679, ei_ebcdic1146},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 123 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4702, ei_iso2022_cn},
    {-1}, {-1},
#line 70 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4705, ei_utf7},
    {-1},
#line 666 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4707, ei_ebcdic838},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 508 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4715, ei_cp1046},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 856 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4727, ei_iso2022_jp3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 537 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4737, ei_cp775},
#line 281 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4738, ei_iso8859_16},
    {-1},
#line 769 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4740, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 703 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4758, ei_ebcdic1026},
    {-1}, {-1}, {-1},
#line 154 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4762, ei_euc_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 659 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4772, ei_ebcdic500},
    {-1}, {-1},
#line 578 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4775, ei_cp864},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 575 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4785, ei_cp863},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 173 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4800, ei_iso8859_1},
    {-1}, {-1}, {-1}, {-1},
#line 735 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4805, ei_ebcdic1140},
    {-1}, {-1},
#line 638 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4808, ei_ebcdic285},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 484 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4824, ei_iso646_cn},
    {-1},
#line 602 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4826, ei_ebcdic037},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 603 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4858, ei_ebcdic037},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 445 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4872, ei_tis620},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 119 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4878, ei_gb18030_2022},
    {-1}, {-1},
#line 92 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4881, ei_iso2022_jp},
    {-1}, {-1},
#line 120 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4884, ei_gb18030_2022},
    {-1}, {-1},
#line 421 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4887, ei_georgian_academy},
    {-1}, {-1},
#line 761 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4890, ei_ebcdic1143},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 794 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4907, ei_ebcdic1147},
    {-1}, {-1}, {-1}, {-1},
#line 860 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4912, ei_tds565},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 777 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4929, ei_ebcdic1145},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 79 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4941, ei_euc_jp},
#line 443 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4942, ei_tis620},
    {-1}, {-1},
#line 607 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4945, ei_ebcdic273},
    {-1}, {-1},
#line 166 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4948, ei_iso2022_kr},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 270 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4956, ei_iso8859_14},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 632 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4974, ei_ebcdic284},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 365 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4983, ei_mac_roman},
    {-1},
#line 802 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4985, ei_ebcdic1148},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 461 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5003, ei_iso646_jp},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 117 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5018, ei_gb18030_2005},
    {-1}, {-1}, {-1}, {-1},
#line 736 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5023, ei_ebcdic1140},
    {-1}, {-1}, {-1}, {-1},
#line 354 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5028, ei_cp862},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 414 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5034, ei_hp_roman8},
#line 222 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5035, ei_iso8859_7},
    {-1}, {-1}, {-1},
#line 31 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5039, ei_ucs2},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 370 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5045, ei_mac_centraleurope},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 183 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5056, ei_iso8859_2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 172 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5069, ei_iso8859_1},
    {-1}, {-1},
#line 71 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5072, ei_ucs2internal},
    {-1},
#line 238 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5074, ei_iso8859_8},
    {-1}, {-1},
#line 398 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5077, ei_mac_turkish},
#line 411 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5078, ei_mac_thai},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 478 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5087, ei_jisx0212},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 34 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5096, ei_ucs2be},
    {-1},
#line 770 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5098, ei_ebcdic1144},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 124 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5107, ei_iso2022_cn},
    {-1}, {-1}, {-1},
#line 555 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5111, ei_cp857},
    {-1},
#line 233 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5113, ei_iso8859_8},
    {-1},
#line 252 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5115, ei_iso8859_10},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 863 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5123, ei_riscos1},
#line 801 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5124, ei_ebcdic1148},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 18 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5132, ei_ascii},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 93 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5150, ei_iso2022_jp},
    {-1},
#line 280 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5152, ei_iso8859_16},
#line 127 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5153, ei_iso2022_cn},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 19 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5175, ei_ascii},
    {-1}, {-1},
#line 251 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5178, ei_iso8859_10},
    {-1}, {-1},
#line 752 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5181, ei_ebcdic1142},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 563 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5189, ei_cp858},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 213 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5199, ei_iso8859_6},
#line 460 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5200, ei_iso646_jp},
    {-1}, {-1},
#line 696 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5203, ei_ebcdic924},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 72 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5211, ei_ucs2swapped},
#line 854 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5212, ei_shift_jisx0213},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 279 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5226, ei_iso8859_16},
    {-1}, {-1},
#line 207 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5229, ei_iso8859_5},
#line 272 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5230, ei_iso8859_15},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 612 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5254, ei_ebcdic277},
    {-1},
#line 45 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5256, ei_ucs4},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 224 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5265, ei_iso8859_7},
    {-1}, {-1},
#line 466 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5268, ei_jisx0201},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 642 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5274, ei_ebcdic297},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 419 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5285, ei_nextstep},
    {-1}, {-1}, {-1},
#line 73 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5289, ei_ucs4internal},
    {-1}, {-1}, {-1}, {-1},
#line 143 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5294, ei_cp950},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 199 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5312, ei_iso8859_4},
#line 266 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5313, ei_iso8859_14},
    {-1}, {-1}, {-1},
#line 191 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5317, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 217 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5329, ei_iso8859_6},
    {-1}, {-1},
#line 422 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5332, ei_georgian_ps},
#line 149 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5333, ei_big5hkscs2008},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 559 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5341, ei_cp858},
    {-1}, {-1}, {-1},
#line 809 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5345, ei_ebcdic1149},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 407 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5353, ei_mac_arabic},
    {-1}, {-1}, {-1},
#line 417 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5357, ei_hp_roman8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 661 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5366, ei_ebcdic500},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 375 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5377, ei_mac_iceland},
#line 147 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5378, ei_big5hkscs2001},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 187 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5388, ei_iso8859_2},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 15 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5397, ei_ascii},
    {-1}, {-1}, {-1},
#line 177 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5401, ei_iso8859_1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 146 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5420, ei_big5hkscs1999},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 74 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5428, ei_ucs4swapped},
    {-1},
#line 114 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5430, ei_cp936},
    {-1}, {-1}, {-1},
#line 470 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5434, ei_jisx0208},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 395 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5452, ei_mac_greek},
    {-1}, {-1}, {-1}, {-1},
#line 16 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5457, ei_ascii},
#line 390 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5458, ei_mac_ukraine},
    {-1}, {-1}, {-1},
#line 448 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5462, ei_cp874},
    {-1},
#line 237 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5464, ei_iso8859_8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 391 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5488, ei_mac_ukraine},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 487 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5500, ei_iso646_cn},
    {-1},
#line 464 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5502, ei_iso646_jp},
    {-1}, {-1}, {-1}, {-1},
#line 704 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5507, ei_ebcdic1026},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 248 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5522, ei_iso8859_9},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 436 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5539, ei_mulelao},
    {-1}, {-1},
#line 561 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5542, ei_cp858},
    {-1}, {-1}, {-1}, {-1},
#line 490 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5547, ei_gb2312},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 227 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5554, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 708 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5560, ei_ebcdic1047},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 219 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5578, ei_iso8859_6},
    {-1},
#line 210 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5580, ei_iso8859_5},
    {-1},
#line 148 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5582, ei_big5hkscs2004},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 531 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5598, ei_cp437},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 203 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5605, ei_iso8859_4},
    {-1}, {-1}, {-1}, {-1},
#line 195 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5610, ei_iso8859_3},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 383 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5657, ei_mac_romania},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 786 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5681, ei_ebcdic1146},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 128 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5690, ei_iso2022_cn_ext},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 223 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5774, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 78 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5810, ei_euc_jp},
#line 673 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5811, ei_ebcdic870},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 686 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5850, ei_ebcdic880},
    {-1},
#line 234 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5852, ei_iso8859_8},
    {-1}, {-1}, {-1},
#line 214 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5856, ei_iso8859_6},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 469 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5871, ei_jisx0208},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 399 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5879, ei_mac_turkish},
    {-1}, {-1}, {-1},
#line 230 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5883, ei_iso8859_7},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 566 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5893, ei_cp860},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 420 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5909, ei_armscii_8},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 613 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5937, ei_ebcdic277},
    {-1}, {-1}, {-1},
#line 359 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5941, ei_cp866},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1},
#line 101 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5952, ei_iso2022_jpms},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 471 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5988, ei_jisx0208},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 619 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6015, ei_ebcdic278},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 476 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6032, ei_jisx0208},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1},
#line 624 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6092, ei_ebcdic280},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 150 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6122, ei_big5hkscs2008},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 284 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6165, ei_iso8859_16},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1},
#line 256 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6188, ei_iso8859_10},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 386 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6201, ei_mac_cyrillic},
    {-1}, {-1},
#line 339 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6204, ei_cp1257},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1},
#line 387 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6271, ei_mac_cyrillic},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 350 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6287, ei_cp850},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 41 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6299, ei_ucs2le},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1},
#line 379 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6320, ei_mac_croatian},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
#line 367 "lib/generated/aliases.gperf"
    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6337, ei_mac_roman}
  };

const struct alias *
aliases_lookup (register const char *str, register size_t len)
{
  if (len <= MAX_WORD_LENGTH && len >= MIN_WORD_LENGTH)
    {
      register unsigned int key = aliases_hash (str, len);

      if (key <= MAX_HASH_VALUE)
        {
          register int o = aliases[key].name;
          if (o >= 0)
            {
              register const char *s = o + stringpool;

              if (*str == *s && !strcmp (str + 1, s + 1))
                return &aliases[key];
            }
        }
    }
  return 0;
}
