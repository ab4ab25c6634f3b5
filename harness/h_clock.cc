// Contract of the clock time and date (group 4A).
#include "vf_abs.h"
#include "vf_txt.h"
#ifndef VF_MODEL
#include <cstdlib>
#include <ctime>
#endif
// Day number of a date of the Gregorian calendar (years from 1 on), days since 1858-11-17.
static inline long spec_mjd(int y, int m, int d) {
  int mm = m <= 2 ? m + 9 : m - 3, yy = m <= 2 ? y - 1 : y;
  return 365L * yy + yy / 4 - yy / 100 + yy / 400 + (153 * mm + 2) / 5 + d - 1 - 678881L;
}
static inline unsigned spec_days(int y, int m) { return m == 2 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
// 1900-03-01 to 2100-02-28, where the day number of the standard is defined
static const long kFirst = 15079, kLast = 88127;
static inline void clock_time(unsigned part, unsigned parts) {
  VfBlocks b = typed_blocks(4, false);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
#ifndef VF_MODEL
  static const char* zones[] = {"UTC", "EET-2EEST,M3.5.0/3,M10.5.0/4", "PST8PDT,M3.2.0,M11.1.0", "IST-5:30"};
  setenv("TZ", zones[vf_below(4, "zone")], 1); tzset();
  // usual contents: a date within range, a valid time
  if (vf_bool("likely")) {
    uint32_t day = static_cast<uint32_t>(kFirst - 1 + vf_below(static_cast<uint32_t>(kLast - kFirst + 3), "day")), h = vf_below(25, "h"), m = vf_below(61, "m"), off = vf_bool("edge") ? 28 + vf_below(3, "o") : vf_below(32, "off");
    b.data[1] = static_cast<uint16_t>((b.data[1] & ~3u) | day >> 15); b.data[2] = static_cast<uint16_t>(day << 1 | h >> 4); b.data[3] = static_cast<uint16_t>(h << 12 | m << 6 | (vf_bool("neg") ? 32 : 0) | off);
  }
  (void)part; (void)parts;
#endif
  long day = (b.data[1] & 3L) << 15 | b.data[2] >> 1;
  unsigned hour = static_cast<unsigned>(b.data[2] & 1) << 4 | b.data[3] >> 12, minute = (b.data[3] >> 6) & 63, half = b.data[3] & 31; bool neg = (b.data[3] >> 5) & 1;
#ifdef VF_MODEL
  if (parts) {
    long lo = kFirst - 1 + (kLast - kFirst + 2) * static_cast<long>(part) / static_cast<long>(parts), hi = kFirst - 1 + (kLast - kFirst + 2) * static_cast<long>(part + 1) / static_cast<long>(parts);
    vf_assume(day >= lo && day <= hi);
  } else vf_assume(day < kFirst);
#endif
  Group g = typed_group(b, 4, false);
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  vf_assert(docs.wellformed && docs.n == 1, "one line per group");
  VfDoc d = docs.doc(0);
  bool valid = b.has[2] && b.has[3] && hour <= 23 && minute <= 59 && half <= 29;
  long total = static_cast<long>(hour * 60 + minute) + (neg ? -30L : 30L) * static_cast<long>(half);
  long local = day + (total < 0 ? -1 : total >= 1440 ? 1 : 0); long lm = total < 0 ? total + 1440 : total >= 1440 ? total - 1440 : total;
  bool has = JHAS(d, "clock_time");
  if (!valid || local < kFirst) vf_assert(!has, "a time that is not valid or was not received is not given");
  else if (local <= kLast) {
    vf_assert(has && JKIND(d, "clock_time") == vfj::STRING, "a valid time is given");
    std::string s = JSTR(d, "clock_time");
    vf_assert(s.size() == (half == 0 ? 20u : 25u), "date, time and offset have the usual form");
    bool form = true; int v[20];
    for (int i = 0; i < 19; i++) { char c = s[static_cast<size_t>(i)]; v[i] = c - '0'; char sep = i == 4 || i == 7 ? '-' : i == 10 ? 'T' : i == 13 || i == 16 ? ':' : 0; if (sep ? c != sep : (c < '0' || c > '9')) form = false; }
    vf_assert(form, "date, time and offset have the usual form");
    if (form) {
      int y = v[0] * 1000 + v[1] * 100 + v[2] * 10 + v[3], m = v[5] * 10 + v[6], dd = v[8] * 10 + v[9];
      vf_assert(m >= 1 && m <= 12 && dd >= 1 && static_cast<unsigned>(dd) <= spec_days(y, m), "the date is a day of the calendar");
      vf_assert(spec_mjd(y, m, dd) == local, "the date is the one received, in local time");
      vf_assert(v[11] * 10 + v[12] == lm / 60 && v[14] * 10 + v[15] == lm % 60 && v[17] == 0 && v[18] == 0, "the time is the one received, in local time");
    }
    if (half == 0) vf_assert(s[19] == 'Z', "universal time is marked Z");
    else { unsigned om = 30 * half; vf_assert(s[19] == (neg ? '-' : '+') && s[20] == static_cast<char>('0' + om / 600) && s[21] == static_cast<char>('0' + om / 60 % 10) && s[22] == ':' && s[23] == static_cast<char>('0' + om % 60 / 10) && s[24] == '0', "the offset is the one received"); }
  }
  if (parts) vf_cover(has, "time");
}
#define CT(n) extern "C" void h_ct_##n() { clock_time(n, 8); }
CT(0) CT(1) CT(2) CT(3) CT(4) CT(5) CT(6) CT(7)
extern "C" void h_ct_early() { clock_time(0, 0); }
