From dedf61050e402577647526c0955f864febfee542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 01/67] fix: accept every day of year 1161 when converting from
 a Rata Die

_RD_END was set to the first day of MAXYEAR, so all but that first day
raised 'Invalid Rata Die value' in badi_date_from_jd and fromordinal.
---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From 8c624d9e6bff94447f03fcd37512c533f88ea448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 02/67] fix: convert dates around a Julian leap day that has no
 Gregorian twin

A sunset falling on 29 February of 100, 200, 300, 500, ... (Julian) or next
to the 1582 reform gap could not be mapped back with _exact_from_meeus, so
12 Badi dates raised ValueError and (-261, 11, 19) came back 10 days early.
Shift the sunset back by the same number of days it was shifted forward.
---
 badidatetime/badi_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..19fb1d4 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -205,7 +205,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         coeff = self._get_day_coeff(year)
         jd0 += coeff
         jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        a_ss = jd_ss - round(jd0 - coeff - jd)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
@@ -791,9 +791,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         """
         def get_sunset(hist_jd, inc):
             ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+            return ss - diff
 
         hist_jd = self._meeus_from_exact(jd)
+        # The sunsets need to be shifted back by the same number of days.
+        diff = round(hist_jd - jd)
         ss_prev = get_sunset(hist_jd, -1)
         ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
-- 
2.43.0


From 77c63b844f35cbbce8a10c47eefda4649963fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 03/67] fix: order, compare, and hash dates by their place in
 the year

Month 0 (Ayyam-i-Ha) sorted before month 1, long form datetimes ignored the
Kull-i-Shay and Vahid, and short against long form compared unrelated
fields. Equal values now also have equal hashes.
---
 badidatetime/datetime.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..fabd9fa 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -775,17 +775,18 @@ class date(BahaiCalendar):
         :rtype: int
         """
         assert isinstance(other, date)
+        return _cmp(self._cmp_key(), other._cmp_key())
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+    def _cmp_key(self) -> tuple:
+        """
+        Returns the short form date as a key that sorts chronologically, in
+        other words Ayyám-i-Há (month 0) is between months 18 and 19.
 
-        return _cmp(d0, d1)
+        :returns: The year, the position of the month, and the day.
+        :rtype: tuple
+        """
+        year, month, day = self._short_from_long_form()[:3]
+        return year, month if month != 0 else 18.5, day
 
     def __hash__(self) -> int:
         """
@@ -795,7 +796,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._cmp_key())
 
         return self._hashcode
 
@@ -2397,10 +2398,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._cmp_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._cmp_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
@@ -2500,9 +2501,9 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((*t._cmp_key(), *t.b_time))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 5a2fbea41fcaaa2f39f8763d663bbdb4882db245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 04/67] fix: unpickle and copy dates in Ayyam-i-Ha

Month 0 was not recognised as pickle data, so pickle.loads, copy.copy and
copy.deepcopy raised an AssertionError for these days.
---
 badidatetime/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index fabd9fa..ff575d2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -911,8 +911,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -2531,8 +2531,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From c9f7cc7b6d4de9509ace855b1c4f43589751b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 05/67] fix: restore the zone and name of an unpickled
 TZWithCoords

Only the offset and key were restored, so zone was None and tzname() fell
back to a name derived from the offset.
---
 badidatetime/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index ff575d2..038c25a 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2946,7 +2946,9 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        self.zone = zone
         self.key = key
+        self._name = None if key == '' else key
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From ed918fbd41a2b2e05c2de6d10b0409efd32055cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 06/67] fix: keep the ZoneInfo of a TZWithCoords on the
 instance

fromzoneinfo stored it on the class, which changed dst() of every other
TZWithCoords object, including UTC and BADI.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 038c25a..8ae0adb 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2906,8 +2906,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 154d49196a6e0d545b32ee6461a1e0d811c63b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 07/67] fix: use the full year in the isoformat of a long form
 datetime

The year within the Vahid was written as if it was the Badi year, so two
different days had the same ISO string. date.isoformat was already right.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 8ae0adb..3515f6c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2191,7 +2191,7 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        s = (f"{super().isoformat()}{sep}" +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From 7398c6880d48031a83395bc1d0e94e6dc99557cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 08/67] fix: parse the ISO dates that isoformat writes for
 years -999 to -1

---
 badidatetime/_timedateutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..01ee816 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1226,6 +1226,11 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            # The isoformat methods write -091-09-16 for the year -91.
+            if neg and dtstr[4:5] == '-':
+                dtstr = f"-0{dtstr[1:]}"
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From 7e958df53f199209ea9bcf0e7fd0187f88cc7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 09/67] fix: round a fractional second to the nearest
 microsecond

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..38975e9 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round((x % 1) * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
-- 
2.43.0


From b2221f9d3e780e5a82199a73b86c98878833285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 10/67] fix: read both digits of the day in a YYYYMMDD ISO date

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 01ee816..e59d66a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1249,7 +1249,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 479adf223e0b857b5ec2aeccedbd8522ece84eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 11/67] fix: apply the sign of an ISO UTC offset to its minutes

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index e59d66a..3bd655a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1414,8 +1414,8 @@ class TimeDateUtils(BahaiCalendar):
                 tz = timezone.badi
             else:
                 offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
                 offset += [0] if len(offset) == 1 else []
+                offset = [-x for x in offset] if nc else offset
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
             tz = None
-- 
2.43.0


From 9dd68ae0512fea7264855d68237b1bd621e5012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 12/67] fix: parse an ISO date without a time in
 datetime.fromisoformat

---
 badidatetime/_timedateutils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 3bd655a..f759a12 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1187,10 +1187,21 @@ class TimeDateUtils(BahaiCalendar):
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
         idx = find_index(dtstr, init_chars)
+
+        # A hyphen starts a UTC offset only if it follows a whole date.
+        if dtstr[idx:idx + 1] == '-':
+            prior = dtstr[:idx].lstrip('-')
+            p_len = len(prior)
+            parted = '-' in prior
+
+            if not (p_len > 8 or (p_len == 8 and not (parted and 'W' in prior))
+                    or (p_len == 7 and not parted)):
+                idx = len(dtstr)
+
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
-- 
2.43.0


From f81b9481f8835acf48223b02b922a4c5772ca599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 13/67] fix: keep the literal text that follows a - or : in
 strftime

---
 badidatetime/_timedateutils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f759a12..5cc78a9 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -888,7 +888,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':
                 strf += ch
 
             idx += 1
@@ -907,17 +908,19 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
-                ch1 = format[idx+i]
+                ch1 = format[idx+i:idx+i+1]
 
-                if ((ch1 not in self._VALID_FORMAT_CHRS) or
+                if ((not ch1 or ch1 not in self._VALID_FORMAT_CHRS) or
                     (ch0 == '-' and ch1 not in 'dHjlmMSy') or
                     (ch0 == ':' and ch1 not in 'KVz')):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From 38ddab89cfb4fc05daef94f4fe03e0c735f429cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 14/67] fix: accept the %w directive in strftime

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 5cc78a9..a24994f 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -20,7 +20,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From 11bc878f649a402226190feeb618f2ee440487bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 15/67] fix: read the %u directive of strptime as 1 to 7

---
 badidatetime/_strptime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..82e299e 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,11 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        # The %u directive counts from 1 and the weekday from 0.
+        if found.groupdict().get('u') is not None:
+            dot_dict.weekday -= 1
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 10f37d44b6139ac90c97cd31c06060a6f050282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 16/67] fix: return the whole date from the date method of a
 long form datetime

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 3515f6c..d9ccef5 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1993,7 +1993,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
-- 
2.43.0


From 101f47cca8fcc92ca923453f74072e3a3cbfe8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 17/67] fix: add the microseconds only once to a naive
 timestamp

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index d9ccef5..85b053c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1960,7 +1960,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From 430d4edd2f771121cb92dd99a218254aa2ad4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 18/67] fix: refuse to order a naive and an aware time with <=

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 85b053c..59f4a95 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1203,7 +1203,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From 11de18b2470913ed79ffd458b0bf0dcaef5a056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 19/67] fix: unpickle and copy times in the hour 24

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 59f4a95..6761906 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1103,7 +1103,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F <= 24):
             # Pickle support
             if isinstance(hour, str):
                 try:
-- 
2.43.0


From 1cf2be6f70fb6fd06eddd618fd7844e80227f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 20/67] fix: compare and hash aware times to the second of the
 UTC offset

---
 badidatetime/datetime.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6761906..b35ca37 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1254,10 +1254,12 @@ class time:
             else:
                 raise TypeError("Cannot compare naive and aware times.")
 
-        myhhmm = self._hour * 60 + self._minute - myoff//timedelta(minutes=1)
-        othhmm = other._hour * 60 + other._minute - otoff//timedelta(minutes=1)
-        return _cmp((myhhmm, self._second, self._microsecond),
-                    (othhmm, other._second, other._microsecond))
+        return _cmp(self._since_midnight() - myoff,
+                    other._since_midnight() - otoff)
+
+    def _since_midnight(self) -> timedelta:
+        return timedelta(hours=self._hour, minutes=self._minute,
+                         seconds=self._second, microseconds=self._microsecond)
 
     # Standard conversions, __hash__ (and helpers)
 
@@ -1276,21 +1278,7 @@ class time:
 
             tzoff = t.utcoffset()
 
-            if not tzoff:  # zero or None
-                self._hashcode = hash(t._getstate()[0])
-            else:
-                h, m = divmod(timedelta(
-                    hours=self.hour, minutes=self.minute) - tzoff,
-                              timedelta(hours=1))
-                assert not m % timedelta(minutes=1), "Must be a whole minute."
-                m //= timedelta(minutes=1)
-
-                if 0 <= h < 24:
-                    self._hashcode = hash(time(h, m, self.second,
-                                               self.microsecond))
-                else:
-                    self._hashcode = hash((h, m, self.second,
-                                           self.microsecond))
+            self._hashcode = hash(t._since_midnight() - (tzoff or timedelta()))
 
         return self._hashcode
 
-- 
2.43.0


From 244b5558dd640d6ffada4cb04514a59b086cf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 21/67] fix: pad the microseconds in the string of a long form
 datetime

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index b35ca37..455db4b 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2240,7 +2240,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From 0b21f83967e6942aa9f8aa84fd6a98141cbe6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 22/67] fix: scale the microseconds of date_from_kvymdhms to a
 day

---
 badidatetime/badi_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 19fb1d4..1e9774d 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -395,8 +395,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         self._check_valid_badi_date(b_date)
         kull_i_shay, vahid, year, month, day = b_date[:5]
         hour, minute, second, us = self._get_hms(b_date)
-        day += round(self._HR(hour) + self._MN(minute) + self._SEC(second) +
-                     self._US(us), 6)  # Round to 6 decimal places
+        day += round(self._HR(hour) + self._MN(minute) +
+                     self._SEC(second + self._US(us)), 6)  # 6 decimal places
         date = (kull_i_shay, vahid, year, month, day)
         return (self.short_date_from_long_date(
             date, trim=True) if short else date)
-- 
2.43.0


From 792a9378a93460a34524b8fc2eaa1d968b2fc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 23/67] fix: keep the hour of the 12-hour clock between 1 and
 12

---
 badidatetime/_timedateutils.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index a24994f..ab8346a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -486,19 +486,12 @@ class TimeDateUtils(BahaiCalendar):
         :returns: The hour (12-hour clock) as a zero-padded decimal number.
         :rtype: str
          """
-        midday_frac = self._find_midday(ttup)
-        time_frac = self._decimal_day_from_hms(ttup.tm_hour, ttup.tm_min,
-                                               ttup.tm_sec)
-
-        if midday_frac <= time_frac:
-            hour = ttup.tm_hour - 12
-        else:
-            hour = ttup.tm_hour
+        hour = ttup.tm_hour % 12 or 12
 
         if org == 'l' and mod == '-':
             st = f"{hour}"
         elif org == 'l':
-            st = f"{hour: 2}"
+            st = f"{hour:2}"
         else:  # %I
             st = f"{hour:02}"
 
-- 
2.43.0


From 9dd7749ebadd19062acd6da5b7e4aa67f4c9e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 24/67] fix: give the ISO 8601 year for %G in strftime

---
 badidatetime/_timedateutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ab8346a..634db37 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -441,6 +441,7 @@ class TimeDateUtils(BahaiCalendar):
         :rtype: str
         """
         year = self._get_year(ttup)
+        year = self._year_week_day(year, ttup.tm_mon, ttup.tm_mday)[0]
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 2a628a1722890e4eb08159a881f25a2bb07aa259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 25/67] fix: write +0000 for %z of an aware UTC time

---
 badidatetime/_structures.py    | 2 +-
 badidatetime/_timedateutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..49f3de2 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,7 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = None if offset is None else offset.total_seconds()
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 634db37..aec928a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -798,7 +798,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From f49f70daafdf968b365b78b68aa9f5e8be05669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 26/67] fix: pad %e in strftime to two characters

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index aec928a..9403433 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -372,7 +372,7 @@ class TimeDateUtils(BahaiCalendar):
         if mod == '-':
             st = f"{ttup.tm_mday}"
         else:
-            pad = ' ' if org == 'e' else 0
+            pad = '' if org == 'e' else 0
             st = f"{ttup.tm_mday:{pad}2}"
 
         return st
-- 
2.43.0


From a54e8a38d041f2165d660bf8fafa6bd924f44939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 27/67] fix: write one minus sign for %:K in strftime

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 9403433..086a878 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -536,8 +536,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From e4c38aa7e283d04255bd290992d7d541d971765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 28/67] fix: unpickle a timezone with an empty name

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 455db4b..c788848 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2810,7 +2810,7 @@ class timezone(tzinfo):
     # pickle support
 
     def __getinitargs__(self):
-        return (self._offset,) + ((self._name,) if self._name else ())
+        return (self._offset,) + (() if self._name is None else (self._name,))
 
     def __hash__(self):
         return hash(self._offset)
-- 
2.43.0


From 1b13994a027846204af2edbae7f3732a0449d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 29/67] fix: refuse long form dates outside the range of years

---
 badidatetime/badi_calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 1e9774d..65e2871 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -659,11 +659,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         else:  # Short Badí' date
             year, month, day = b_date[:3]
             hour, minute, second, us = self._get_hms(b_date, short_in=True)
-            assert self.MINYEAR-1 <= year <= self.MAXYEAR+1, (
-                f"Invalid year '{year}' it must be in the range of ["
-                f"{self.MINYEAR}, {self.MAXYEAR}].")
             ly = year
 
+        assert self.MINYEAR-1 <= ly <= self.MAXYEAR+1, (
+            f"Invalid year '{ly}' it must be in the range of ["
+            f"{self.MINYEAR}, {self.MAXYEAR}].")
         assert 0 <= month < cycle, (
             f"Invalid month '{month}', it must be in the range of [0, 19].")
         # This is Ayyām-i-Hā and could be 4 or 5 days depending on leap year.
-- 
2.43.0


From a8926a49cf448b6b2e469a40016b152a636e0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 30/67] fix: timestamp of a naive long form datetime

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index c788848..7af4949 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1937,8 +1937,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
-                                             *LOCAL_COORD)
+        date = self._short_from_long_form()[:3]
+        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
 
     def timestamp(self) -> float:
         """
-- 
2.43.0


From 972b348a32dfeb6dabbbf59fca1bdbee90305dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 31/67] fix: keep the minute and second of a fractional time
 below 60

---
 badidatetime/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 7af4949..b8688fa 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1671,15 +1671,15 @@ class datetime(date):
         fractionals(second, (microsecond,))
 
         if hour % 1:
-            mm = self._PARTIAL_HOUR_TO_MINUTE(hour)
-            ss = self._PARTIAL_MINUTE_TO_SECOND(mm)
+            mm = min(self._PARTIAL_HOUR_TO_MINUTE(hour), 59.999999)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(mm), 59.999999)
             self._hour = _math.floor(hour)
             self._minute = _math.floor(mm)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif minute % 1:
             self._hour = hour
-            ss = self._PARTIAL_MINUTE_TO_SECOND(minute)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(minute), 59.999999)
             self._minute = _math.floor(minute)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
-- 
2.43.0


From 67df61aa5c777c52f19ab67e0a59f5c3e83f0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 32/67] fix: keep the ZoneInfo of a pickled TZWithCoords

---
 badidatetime/datetime.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index b8688fa..997c027 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2919,8 +2919,12 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
-        return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+        state = {"zone": self._coords[2], "key": self.key}
+
+        if hasattr(self, '_zi'):
+            state["zi"] = self._zi
+
+        return (self.__class__, (self.lat, self.lon), state)
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2940,6 +2944,9 @@ class TZWithCoords(timezone):
         self._name = None if key == '' else key
         self._coords = (self.lat, self.lon, zone)
 
+        if "zi" in state:
+            self._zi = state["zi"]
+
 
 UTC = timezone.utc = TZWithCoords(*GMT_COORD, key='UTC')
 BADI = timezone.badi = TZWithCoords(*BADI_COORD, key=BADI_IANA)
-- 
2.43.0


From a35bce981694b94d101bccb5928e3adcb11ea54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 33/67] fix: direction of a latitude in _dms_from_decimal

---
 badidatetime/base_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 38975e9..ef1988b 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1101,9 +1101,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         seconds = (abs(coord) - degrees - (minutes / 60)) * 3600
 
         if coord < 0:
-            direc = 'S' if direction == 'LAT' else 'W'
+            direc = 'S' if direction.startswith('LAT') else 'W'
         else:
-            direc = 'N' if direction == 'LAT' else 'E'
+            direc = 'N' if direction.startswith('LAT') else 'E'
 
         return degrees, minutes, seconds, direc
 
-- 
2.43.0


From c84a45b1b61b573f3a657cd289ca2e3487a0a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 34/67] fix: microseconds of _dhms_from_seconds

---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index ef1988b..3662ba1 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1210,7 +1210,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         sec = (seconds - hours * 3600) - minutes * 60
 
         if us:
-            sms = (math.floor(sec), int(round(sec % 1, 6) * 1e6))
+            sms = (math.floor(sec), self._PARTIAL_SECOND_TO_MICROSECOND(sec))
         else:
             sms = (sec,)
 
-- 
2.43.0


From 06b51f3252e59b3e95bb51463bd5f545abbb2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 35/67] fix: midday of the days by a Julian leap day and the
 reform

---
 badidatetime/badi_calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 65e2871..41ded54 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -580,8 +580,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         jd = self.jd_from_badi_date(b_date)
         jd1 = self._meeus_from_exact(jd)
         ss0 = self._sun_setting(jd1, *self._GMT_LOCATION[:2])
-        jd2 = self._meeus_from_exact(jd + 1)
-        ss1 = self._sun_setting(jd2, *self._GMT_LOCATION[:2])
+        ss1 = self._sun_setting(jd1 + 1, *self._GMT_LOCATION[:2])
         ut_mid = (ss1 - ss0) / 2
         local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
         return self._hms_from_decimal_day(local_mid) if hms else local_mid
-- 
2.43.0


From 182c9cfe3d2d187ac1e0c436ec975751f6310d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 36/67] fix: length of the days by a Julian leap day

---
 badidatetime/badi_calendar.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 41ded54..7770dfa 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -756,13 +756,10 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :returns: The hour, minute, and second or a decimal number.
         :rtype: tuple or float
         """
-        jd0 = math.floor(jd)
-        jd1 = jd0 + 1
+        jd0 = self._meeus_from_exact(math.floor(jd))
         # The next day
-        jd1 = self._meeus_from_exact(jd1)
-        ss1 = self._sun_setting(jd1, lat, lon)
+        ss1 = self._sun_setting(jd0 + 1, lat, lon)
         # The first day
-        jd0 = self._meeus_from_exact(jd0)
         ss0 = self._sun_setting(jd0, lat, lon)
         # Subtract the first day from the next day given the total
         # hours, minutes, and seconds between them.
-- 
2.43.0


From fcb21fa18ccf15df846a6a78c5ced96e03e95077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 37/67] fix: nutation at the epoch J2000 of a new object

---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 3662ba1..d5cdef1 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -64,7 +64,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
-- 
2.43.0


From a1d497abcface6fb45af9522b0a3f26047967049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 38/67] fix: use local coordinates that are whole numbers

---
 badidatetime/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..814e72f 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,8 +53,8 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
         lat = _LOCAL_COORDS[0]
         lon = _LOCAL_COORDS[1]
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
-- 
2.43.0


From 32377bcde6f35526b0c5ac7357e5415379fa7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 39/67] fix: nutation of an object that threads share

---
 badidatetime/base_calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index d5cdef1..7b87718 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -470,7 +470,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -482,7 +482,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -490,7 +490,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From 1d2dc1e3728c0f39f34dc3bd61ef3137e4ca810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 40/67] fix: refuse the days of the Gregorian reform with a
 time of the day

---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..e70f071 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -61,7 +61,7 @@ class GregorianCalendar(BaseCalendar):
             jd = round(days, self._ROUNDING_PLACES)
         else:  # Meeus historically correct algorithm
             if (year, month) == (1582, 10):
-                assert day not in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14), (
+                assert math.floor(day) not in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14), (
                     f"The days 5-14 in 1582-10 are invalid, found day '{day}'."
                     )
 
-- 
2.43.0


From cd58dfb6b65ce2df1d4764941e2573f40d868912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 41/67] fix: take the sunset of the same day at longitude 180

---
 badidatetime/badi_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 7770dfa..0ec6f8d 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -204,7 +204,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         jd0 = self._meeus_from_exact(jd)
         coeff = self._get_day_coeff(year)
         jd0 += coeff
-        jd_ss = self._sun_setting(jd0, lat, lon)
+        # Noon of the local day, so that the sunset is the one of that day.
+        jd_ss = self._sun_setting(jd0 - lon / 360.0, lat, lon)
         a_ss = jd_ss - round(jd0 - coeff - jd)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
-- 
2.43.0


From a3f5f8b73eeafaf074107b7becf405ea25e12813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 42/67] fix: keep the fraction of a day in a Julian day and a
 short date

---
 badidatetime/badi_calendar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 0ec6f8d..19d5bf1 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -192,8 +192,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         else:             # month 19
             days = 18 * 19 + 4 + self._is_leap_year(year)
 
+        part_day = day % 1
         td = self._days_in_years(year - 1)
-        jd = td + math.floor(self._BADI_EPOCH + 1) + days + day
+        jd = td + math.floor(self._BADI_EPOCH + 1) + days + day - part_day
 
         if any([True if l is None else False for l in (lat, lon, zone)]):
             lat, lon, zone = self._BAHAI_LOCATION[:3]
@@ -207,7 +208,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # Noon of the local day, so that the sunset is the one of that day.
         jd_ss = self._sun_setting(jd0 - lon / 360.0, lat, lon)
         a_ss = jd_ss - round(jd0 - coeff - jd)
-        day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
+        day_frac = self._decimal_day_from_hms(hh, mm, ss, us) + part_day
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
     def badi_date_from_jd(self, jd: float, lat: float=None, lon: float=None,
@@ -334,7 +335,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             day += 1
             hh -= 1
 
-        if day > dm:
+        if math.floor(day) > dm:  # There may be a part day.
             if dm in (4, 5):
                 month = 19
                 day = 1
-- 
2.43.0


From 1ad2bf536726244149588ec004f269805bc59d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 43/67] fix: do not round the last milliseconds of a day to the
 hour 24

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 7b87718..ad05408 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -36,7 +36,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     # The inline functions below will assume that 0 is midnight, if
     # converting from a Julian Period day add 0.5 to the value before
     # calling the function.
-    _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
+    _PARTIAL_DAY_TO_HOURS = lambda self, x: min(round((x % 1) * 24, 6),
+                                               23.999999)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
     _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
-- 
2.43.0


From 1ce8014a8c003af98120fee177d74e12419d0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 44/67] fix: weekday, day of the year, and ctime of a long form
 datetime in the hour 24

---
 badidatetime/_timedateutils.py | 4 ++--
 badidatetime/datetime.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 086a878..32b3b41 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1099,8 +1099,8 @@ class TimeDateUtils(BahaiCalendar):
         if short_in:
             y, m, d, hh, mm, ss = date
         else:
-            # Microsecond (ms) is not used.
-            y, m, d, hh, mm, ss, ms = self.short_date_from_long_date(date)
+            # The time is not used, so that it has no effect on the day.
+            y, m, d = self.short_date_from_long_date(date[:5], trim=True)
 
         wday = self._day_of_week(y, m, d)
         dnum = self._days_before_month(y, m) + d
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 997c027..53e7205 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2144,8 +2144,8 @@ class datetime(date):
         if self.is_short:
             date = self.b_date + self.b_time
         else:
-            d = self._short_from_long_form(time=self.b_time)
-            date = (*d[:3], *d[5:])
+            d = self._short_from_long_form()
+            date = (*d[:3], *self.b_time)
 
         weekday = _td_utils._day_of_week(*date[:3])
         wd_name = _td_utils.DAYNAMES[weekday]
-- 
2.43.0


From 8f9b71367e9db5f5d883767072d001bf29b24df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 45/67] fix: the ISO offsets +hhmm and -hhmm were read as hours

---
 badidatetime/_timedateutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 32b3b41..ebac4c8 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1420,7 +1420,12 @@ class TimeDateUtils(BahaiCalendar):
             elif bc == 1 and tz_len == 1:
                 tz = timezone.badi
             else:
-                offset = [int(x) for x in tzstr[1:].split(':')]
+                parts = tzstr[1:].split(':')
+
+                if not cc and tz_len == 5:  # +hhmm or -hhmm
+                    parts = [tzstr[1:3], tzstr[3:]]
+
+                offset = [int(x) for x in parts]
                 offset += [0] if len(offset) == 1 else []
                 offset = [-x for x in offset] if nc else offset
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
-- 
2.43.0


From 5a050930323496b31e22c2ab86cca1ca1813b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 46/67] fix: time.fromisoformat refused an offset, which
 time.isoformat writes

---
 badidatetime/datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 53e7205..78d7b33 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1360,7 +1360,11 @@ class time:
         """
         if isinstance(t_str, str):
             try:
-                return cls(*_td_utils._parse_isoformat_time(t_str))
+                idx = min([i for i, c in enumerate(t_str) if c in 'ZB+-'],
+                          default=len(t_str))
+                tz = _td_utils._parse_isoformat_timezone(t_str[idx:])
+                return cls(*_td_utils._parse_isoformat_time(t_str[:idx]),
+                           tzinfo=tz)
             except Exception as e:
                 raise ValueError(f'Invalid isoformat string: {t_str!r}, {e}')
 
-- 
2.43.0


From 1ff69ac354a045b58aad16a0db34f9b0fe963ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 47/67] fix: an ISO offset of 60 or more minutes was accepted

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ebac4c8..11bb043 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1427,6 +1427,8 @@ class TimeDateUtils(BahaiCalendar):
 
                 offset = [int(x) for x in parts]
                 offset += [0] if len(offset) == 1 else []
+                assert offset[1] < 60, (
+                    f"Invalid minutes {offset[1]} in timezone {tzstr!r}.")
                 offset = [-x for x in offset] if nc else offset
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
-- 
2.43.0


From a3ab8e194b9ad0525d5fa3161517a230e94a27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 48/67] fix: strptime refused week 53 of %U and %W

---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 82e299e..6ec9cb3 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -224,7 +224,7 @@ class TimeRE(dict):
             'm': r"(?P<m>1[0-9]|0[0-9]|[0-9])",
             'M': r"(?P<M>[0-5]\d|\d)",
             'S': r"(?P<S>6[0-1]|[0-5]\d|\d)",
-            'U': r"(?P<U>5[0-2]|[0-4]\d|\d)",
+            'U': r"(?P<U>5[0-3]|[0-4]\d|\d)",
             'w': r"(?P<w>[0-6])",
             'u': r"(?P<u>[1-7])",
             'V': r"(?P<V>5[0-3]|0[1-9]|[1-4]\d|\d)",
-- 
2.43.0


From 4a76aa1207fb606807d0b8f71cd7714c18659e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 49/67] fix: time strings of one digit were read as midnight

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 11bb043..8d4e9b1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1368,6 +1368,8 @@ class TimeDateUtils(BahaiCalendar):
                     raise ValueError(f"Invalid time string, found {tmstr!r}")
             else:  # Thh
                 time = (hour, 0, 0)
+        elif t_len > 1:
+            raise ValueError(f"Invalid time string, found {tmstr!r}")
         else:
             time = ()
 
-- 
2.43.0


From 3956f0b0a010f98eaf2f8aabab382ef470f5bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 50/67] fix: date and datetime could not be unpickled from text
 state

---
 badidatetime/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 78d7b33..a5dcbe9 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -260,6 +260,8 @@ class date(BahaiCalendar):
         if (short := date._is_pickle_data(a, b)) is not None:
             self = object.__new__(cls)
             self.__short = short
+            # Text, from a pickle of Python 2, was checked above.
+            a = a.encode('latin1') if isinstance(a, str) else a
             self.__setstate(a)
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
@@ -1620,6 +1622,8 @@ class datetime(date):
             self = object.__new__(cls)
             super().__init__(self)
             self.__short = short
+            # Text, from a pickle of Python 2, was checked above.
+            a = a.encode('latin1') if isinstance(a, str) else a
             self.__setstate(a, b)
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
-- 
2.43.0


From 18f3e0e59722c1948ef6a781c9e2f6c23210ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 51/67] fix: whole hours, minutes, and seconds given as floats
 stayed floats

---
 badidatetime/datetime.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a5dcbe9..6ad0186 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1125,6 +1125,10 @@ class time:
                                          microsecond, fold)
             _check_tzinfo_arg(tzinfo)
             self = object.__new__(cls)
+            # A whole number may have come as a float.
+            hour = hour if hour % 1 else int(hour)
+            minute = minute if minute % 1 else int(minute)
+            second = second if second % 1 else int(second)
             self._hour = hour
             self._minute = minute
             self._second = second
@@ -1702,6 +1706,11 @@ class datetime(date):
             self._second = second
             self._microsecond = round(microsecond, 6)
 
+        # A whole number may have come as a float.
+        self._hour = int(self._hour)
+        self._minute = int(self._minute)
+        self._second = int(self._second)
+
         self.__time = (self._hour, self._minute,
                        self._second, self._microsecond)
 
-- 
2.43.0


From 58916ba4605104b83f77ba7d25842901509afe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 52/67] fix: repr of a time with a fraction of a second failed

---
 badidatetime/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6ad0186..e7ad97a 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1308,15 +1308,15 @@ class time:
         :rtype: str
         """
         if self._microsecond != 0:
-            s = f", {self._second:d}, {self._microsecond:d}"
+            s = f", {self._second}, {self._microsecond:d}"
         elif self._second != 0:
-            s = f", {self._second:d}"
+            s = f", {self._second}"
         else:
             s = ""
 
         s = (f"{_get_class_module(self)}."
              f"{self.__class__.__qualname__}"
-             f"({self._hour:d}, {self._minute:d}{s})")
+             f"({self._hour}, {self._minute}{s})")
 
         if self.tzinfo is not None:
             assert s[-1:] == ")"
-- 
2.43.0


From 8e9f76ac76eb98f940487409db5dc31515b88f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 53/67] fix: replace ignored Kull-i-Shay 0 on a short form date

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e7ad97a..d8d826c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -646,7 +646,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2059,7 +2059,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From b9036ca702e6a2704851a527f9dcbeb0b744a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 54/67] fix: times with a fraction of a second are ordered by
 their moment

---
 badidatetime/datetime.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index d8d826c..225d431 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1249,10 +1249,7 @@ class time:
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._hour, self._minute, self._second,
-                         self._microsecond),
-                        (other._hour, other._minute, other._second,
-                         other._microsecond))
+            return _cmp(self._since_midnight(), other._since_midnight())
 
         if myoff is None or otoff is None:
             if allow_mixed:
-- 
2.43.0


From f32c767c5f479e551bc8cd8907b126af00e5a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 55/67] fix: split the fraction of an hour or minute of a time

---
 badidatetime/datetime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 225d431..acde518 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1125,6 +1125,13 @@ class time:
                                          microsecond, fold)
             _check_tzinfo_arg(tzinfo)
             self = object.__new__(cls)
+
+            # A part hour or minute is split in smaller units.
+            if hour % 1 or minute % 1 or (second % 1 and microsecond):
+                hour, minute, second, microsecond = datetime(
+                    MINYEAR, 1, 1, None, None, hour, minute, second,
+                    microsecond).b_time
+
             # A whole number may have come as a float.
             hour = hour if hour % 1 else int(hour)
             minute = minute if minute % 1 else int(minute)
-- 
2.43.0


From b778abb87fe1853cfebfb1f471557cc094f2e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 56/67] fix: format the fraction of the second of a time as
 microseconds

---
 badidatetime/datetime.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index acde518..ed191a2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1273,6 +1273,16 @@ class time:
 
     # Standard conversions, __hash__ (and helpers)
 
+    def _whole_seconds(self):
+        """
+        Get this time with any fraction of the second as microseconds.
+
+        :returns: A time whose second is an integer.
+        :rtype: time
+        """
+        return (datetime.combine(date.min, self).timetz()
+                if self._second % 1 else self)
+
     def __hash__(self) -> int:
         """
         Get the hash of the `self` instance.
@@ -1348,8 +1358,13 @@ class time:
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = _format_time(self._hour, self._minute, self._second,
-                         self._microsecond, timespec)
+        t = self._whole_seconds()
+        s = _format_time(t._hour, t._minute, t._second, t._microsecond,
+                         timespec)
+
+        if t is not self and t._microsecond and timespec == 'auto':
+            s = s.rstrip('0')
+
         tz = self._tzstr()
 
         if tz:
@@ -1390,8 +1405,9 @@ class time:
         :rtype: str
         """
         # We use the Badí' epoch for the year, month and day.
-        timetuple = (1, 1, 1, self._hour, self._minute, self._second, 0, 1, -1)
-        return _td_utils._wrap_strftime(self, format, timetuple)
+        t = self._whole_seconds()
+        timetuple = (1, 1, 1, t._hour, t._minute, t._second, 0, 1, -1)
+        return _td_utils._wrap_strftime(t, format, timetuple)
 
     def __format__(self, fmt: str) -> str:
         """
-- 
2.43.0


From 610356d402d1c1a35a21fb66cd4994eb12ac173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 57/67] fix: pickle times with a fraction of a second

---
 badidatetime/datetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index ed191a2..6099ab7 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1543,11 +1543,12 @@ class time:
         :returns: The current state of the `self` instance.
         :rtype: tuple
         """
-        us2, us3 = divmod(self._microsecond, 256)
+        t = self._whole_seconds()
+        us2, us3 = divmod(t._microsecond, 256)
         us1, us2 = divmod(us2, 256)
-        h = self._hour
+        h = t._hour
         h += 128 if self._fold and protocol > 3 else 0
-        basestate = bytes([h, self._minute, self._second, us1, us2, us3])
+        basestate = bytes([h, t._minute, t._second, us1, us2, us3])
 
         if self.tzinfo is None:
             return (basestate,)
-- 
2.43.0


From 37aaa2d574eaa7b723e464c9a410f1f25030d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 58/67] fix: fromisocalendar took weeks that the year does not
 have

---
 badidatetime/_timedateutils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 8d4e9b1..85b488f 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1126,19 +1126,14 @@ class TimeDateUtils(BahaiCalendar):
         p_offset = 0
 
         if not 0 < week < 52:  # We're looking for only the 53rd week.
+            assert week == 52, f"Invalid week: {week}"
             day_one = _td_utils._day_of_week(year, 1, 1) + 1
 
-            if day_one in (3, 4):
-                out_of_range = True
-
-                if week == 52:
-                    # In Badí' years that have 52 weeks and start on the 3rd
-                    # day (Kamál) or the 4th day (Fiḍāl).
-                    # Badí' weeks start on Jalal (Saturday).
-                    p_offset = 7
-                    out_of_range = False
-
-                assert not out_of_range, f"Invalid week: {week}"
+            # Badí' weeks start on Jalal (Saturday). The years that have 53
+            # weeks start on the 4th day (Fiḍāl) or, if it is a leap year,
+            # on the 3rd day (Kamál).
+            if day_one == 4 or (day_one == 3 and self._is_leap_year(year)):
+                p_offset = 7
 
         assert 0 < day < 8, f"Invalid weekday: {day} (range is [1, 7])"
         # Now compute the offset from (Y, 1, 1) in days:
-- 
2.43.0


From 41af3d1cfb9d09d21270f2f8761474a1452b252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:56 +0000
Subject: [PATCH 59/67] fix: fromisoformat took dates with missing, extra, or
 misplaced digits

---
 badidatetime/_timedateutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 85b488f..331fc1c 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -4,6 +4,7 @@
 #
 __docformat__ = "restructuredtext en"
 
+import re
 import time
 import locale
 import math
@@ -1248,7 +1249,10 @@ class TimeDateUtils(BahaiCalendar):
                 "identifier and between 0 and 2 hyphens (-) used.")
         d_len = len(dtstr)
 
-        if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
+        if not re.fullmatch(r'\d{4}(-\d\d(-\d\d)?|\d{4}|-?\d{3}|'
+                            r'-?W\d\d(-?\d)?)', dtstr):
+            date = ()
+        elif dc == 1 and d_len == 7 and not wc:  # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
             date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
-- 
2.43.0


From 51204fd7fa3763173b448285981ff36a7b03835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 60/67] fix: fromisoformat took times with missing or extra
 digits

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 331fc1c..5fb841c 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1330,6 +1330,10 @@ class TimeDateUtils(BahaiCalendar):
         pc = tmstr.count('.')
         assert pc <= 1, f"Invalid number of dots (.), can be 0 - 1, found {pc}"
 
+        if t_len > 2 and not re.fullmatch(
+            r'T\d\d(\d\d(\d\d)?|:\d\d(:\d\d)?)?(\.\d+)?', tmstr):
+            raise ValueError(f"Invalid time string, found {tmstr!r}")
+
         if t_len > 2:
             hour = int(tmstr[1:3])
             pos0 = 1 if cc else 0
-- 
2.43.0


From 4feae29ecb42f1f7c0737ab653dd9fd5f81a24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 61/67] fix: fromisoformat took offsets with missing or extra
 digits

---
 badidatetime/_timedateutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 5fb841c..f4e1a52 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1419,6 +1419,9 @@ class TimeDateUtils(BahaiCalendar):
         assert cc < 2, (
             f"Invalid number of colons (:), can be 0 - 1, found {cc}")
 
+        if tz_len > 0 and not re.fullmatch(r'[ZB]|[-+]\d\d(:?\d\d)?', tzstr):
+            raise ValueError(f"Invalid timezone string, found {tzstr!r}")
+
         if tz_len > 0:
             if zc == 1 and tz_len == 1:
                 tz = timezone.utc
-- 
2.43.0


From ae352da576570f933c712cb2ad1c71229859a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:19 +0000
Subject: [PATCH 62/67] fix: datetime.fromisoformat raised a TypeError for a
 string without a date

---
 badidatetime/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6099ab7..55ea357 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1950,6 +1950,10 @@ class datetime(date):
         """
         date, time, tz = _td_utils._parse_isoformat_date_time_timezone(
             date_string)
+
+        if date == ():
+            raise ValueError(f"Invalid isoformat string: {date_string!r}.")
+
         t_len = len(time)
         time = list(time)
         time += [0 for v in range(4 - t_len)]
-- 
2.43.0


From 7a46e6c4dee7cb97cffa7bf305bb68e12a339cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 63/67] fix: fromisoformat took days after the end of the year
 as days of the last month

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f4e1a52..e14879b 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1275,6 +1275,10 @@ class TimeDateUtils(BahaiCalendar):
             month_days = list(self._BADI_MONTH_NUM_DAYS)
             month_days[18] = (0, 4 + self._is_leap_year(year))
             days = int(dtstr[4:7] if dc == 0 else dtstr[5:8])
+            last = 365 + self._is_leap_year(year)
+            assert days <= last, (
+                f"Invalid day {days} of the year {year}, it must be in the "
+                f"range of [1, {last}].")
 
             for month, ds in month_days:
                 if days <= ds: break
-- 
2.43.0


From c5b7d630044c595a0a9b11b860a3683f4fe18b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:35 +0000
Subject: [PATCH 64/67] fix: time tuples and strftime ignored the fold of a
 datetime

---
 badidatetime/_structures.py    | 12 +++++++-----
 badidatetime/_timedateutils.py |  6 ++++--
 badidatetime/datetime.py       |  3 ++-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 49f3de2..b72553b 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -89,13 +89,14 @@ class struct_time:
     Create a structure representing a Badí' date and time.
     """
 
-    def __new__(cls, date: tuple, tzinfo=None):
+    def __new__(cls, date: tuple, tzinfo=None, *, fold: int=0):
         """
         Creates a ShortFormStruct or LongFormStruct NamedTuple.
 
         :param tuple date: A tuple containing the data needed to create
                            a NamedTuple.
         :param tzinfo tzinfo: Timezone information or None.
+        :param int fold: The fold of the date and time.
         :returns: Instance object
         :rtype: ShortFormStruct or LongFormStruct
         """
@@ -110,10 +111,10 @@ class struct_time:
 
         if short:
             inst = ShortFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
         else:
             inst = LongFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
 
         return inst
 
@@ -142,7 +143,7 @@ class struct_time:
         return short
 
     @classmethod
-    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool):
+    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool, fold: int):
         """
         Fill in missing data.
 
@@ -151,6 +152,7 @@ class struct_time:
         :param bool short: If `True` then the date tuple represents a short
                            form Badí' date and time, if `False` date tuple
                            represents a long form Badí' date and time.
+        :param int fold: The fold of the date and time.
         :returns: The updated date tuple.
         :rtype: tuple
         """
@@ -162,7 +164,7 @@ class struct_time:
             b_date = date[:8]
 
         date = list(date)
-        dt = datetime.datetime(*b_date, tzinfo=tzinfo)
+        dt = datetime.datetime(*b_date, tzinfo=tzinfo, fold=fold)
 
         # Build out the tm_isdst, tm_zone and tm_gmtoff.
         if tzinfo:
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index e14879b..282ba4d 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1084,7 +1084,7 @@ class TimeDateUtils(BahaiCalendar):
         return self.badi_date_from_jd(jd0, short=short, trim=True, rtd=True)
 
     def _build_struct_time(self, date: tuple, dstflag: int, *, tzinfo=None,
-                           short_in: bool=False) -> NamedTuple:
+                           short_in: bool=False, fold: int=0) -> NamedTuple:
         """
         Build either a ShortFormStruct or LongFormStruct struct_time.
 
@@ -1094,6 +1094,7 @@ class TimeDateUtils(BahaiCalendar):
                             and 0 when it is not. A value of -1 indicates
                             that this is not known.
         :param tzinfo tzinfo: If provided a tzinfo object.
+        :param int fold: The fold of the date and time.
         :returns: A struct_time object.
         :rtype: ShortFormStruct or LongFormStruct
         """
@@ -1105,7 +1106,8 @@ class TimeDateUtils(BahaiCalendar):
 
         wday = self._day_of_week(y, m, d)
         dnum = self._days_before_month(y, m) + d
-        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo)
+        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo,
+                           fold=fold)
 
     def _isoweek_to_badi(self, year: int, week: int, day: int, *,
                          short: bool=False) -> tuple:
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 55ea357..4bff59b 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1970,7 +1970,8 @@ class datetime(date):
         """
         date = self.b_date + self.b_time[:3]
         return _td_utils._build_struct_time(date, -1, tzinfo=self.tzinfo,
-                                            short_in=self.is_short)
+                                            short_in=self.is_short,
+                                            fold=self.fold)
 
     def _mktime(self) -> float:
         """
-- 
2.43.0


From 415ce9b8fe2077481564dc1b14386a0a89a16330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:47 +0000
Subject: [PATCH 65/67] fix: strftime of a time wrote the offset its zone had
 in the year 1

---
 badidatetime/datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 4bff59b..ab4275c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -14,6 +14,7 @@ import math as _math
 from datetime import timedelta, tzinfo
 from types import NoneType
 
+from ._structures import ShortFormStruct
 from .badi_calendar import BahaiCalendar
 from ._timedateutils import _td_utils
 
@@ -1406,7 +1407,10 @@ class time:
         """
         # We use the Badí' epoch for the year, month and day.
         t = self._whole_seconds()
-        timetuple = (1, 1, 1, t._hour, t._minute, t._second, 0, 1, -1)
+        offset = self.utcoffset()
+        timetuple = ShortFormStruct(
+            1, 1, 1, t._hour, t._minute, t._second, 0, 1, -1, self.tzname(),
+            None if offset is None else offset.total_seconds())
         return _td_utils._wrap_strftime(t, format, timetuple)
 
     def __format__(self, fmt: str) -> str:
-- 
2.43.0


From 6a0b8cf6ec4730e690f520790529d566aa5dd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 66/67] fix: Gregorian dates took negative parts and seconds
 past 59 as valid

---
 badidatetime/gregorian_calendar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index e70f071..3f18637 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -341,8 +341,8 @@ class GregorianCalendar(BaseCalendar):
         """
         t_len = len(g_date)
         year = g_date[0]
-        month = abs(g_date[1])
-        day = abs(g_date[2])
+        month = g_date[1]
+        day = g_date[2]
         LY = (self._JULIAN_LEAP_YEAR if historical and year < 1583
               else self._is_leap_year)
         hour = g_date[3] if t_len > 3 and g_date[3] is not None else 0
@@ -357,8 +357,9 @@ class GregorianCalendar(BaseCalendar):
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
             f"should be 1 - {days}.")
-        assert hour < 24, f"Invalid hour '{hour}' it must be < 24"
-        assert minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= hour < 24, f"Invalid hour '{hour}' it must be < 24"
+        assert 0 <= minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= second < 60, f"Invalid second '{second}' should be < 60."
 
         if any((hour, minute, second)):
             assert not day % 1, ("If there is a part day then there can be no "
-- 
2.43.0


From 10ad8df0f8404327cb63b07596054c0d67438f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:06 +0000
Subject: [PATCH 67/67] fix: kvymdhms_from_b_date dropped the microseconds of a
 date

---
 badidatetime/badi_calendar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 19d5bf1..da4af1c 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -446,6 +446,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             minute = b_date[6] if dlen > 6 else 0
             second = b_date[7] if dlen > 7 else 0
 
+            if dlen > 8:
+                second = round(second + self._US(b_date[8]), 6)
+
         date = (kull_i_shay, vahid, year, month, math.floor(day))
 
         if us:
-- 
2.43.0

