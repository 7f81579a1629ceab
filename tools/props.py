RM = 'runtime monitoring: '

prop('C01', 'Naw-Rúz is the Tehran day of the March equinox',
     'Every Badí year from -1842 to 1161 begins, by every public route, at the Tehran sunset that the published and committed table of year starts gives. From the year -278 on that is the last sunset before the March equinox.',
     [IN], 'every year of the supported range',
     'The tests sample some dozen years; a wrong coefficient or boundary shifts a whole year elsewhere by a day.',
     ['badi_calendar.py', '_coefficients.py', 'base_calendar.py'],
     [('year start from the epoch, a day coefficient, and the Tehran sunset', 'badi_calendar.py: jd_from_badi_date, _build_badi_year_start'), ('coefficients per range of years', '_coefficients.py: _get_day_coeff')],
     ['naw_ruz_g_date', 'date.toordinal', 'badi_date_from_jd'],
     RM + 'oracle of published tables and an independent solar model over every year',
     'All 3004 years are observed in both tiers. Trusts the committed table, which is itself compared with 424 published equinoxes, 50 World Centre dates, and a VSOP87 solar model.')

prop('C02', 'A year is 18 months, 4 or 5 intercalary days, and the month of the Fast',
     'Every year has exactly 19 months of 19 days with Ayyám-i-Há between the 18th and the 19th month; a year of 366 days has 5 days of Ayyám-i-Há, one of 365 days 4. Leap status, accepted days, refused days, the day of the year, and the distance to the next Naw-Rúz agree for every year.',
     [IN], 'every year and every month of the supported range, both forms of a date',
     'Leap years follow no arithmetic rule, so each year is a separate fact; the tests look at a few.',
     ['badi_calendar.py', '_timedateutils.py', 'datetime.py'],
     [('leap year from two year starts', 'badi_calendar.py: _is_leap_year'), ('validation', 'badi_calendar.py: _check_valid_badi_date'), ('days before a month', '_timedateutils.py: _days_before_month')],
     ['date(), datetime()', 'timetuple', 'jd_from_badi_date'],
     RM + 'reference-calendar oracle over every year',
     'All 3004 years in both tiers; days of the year are sampled in quick and dense in thorough.')

prop('C03', 'Dates and ordinals are a bijection that counts the days',
     'toordinal and fromordinal are inverse to each other on every representable day, consecutive days have consecutive ordinals, and weekday and isoweekday advance by one each day. The day count agrees with the Gregorian day on whose evening the Badí day begins.',
     [IN], 'every day from date.min to date.max but the ten days dropped by the Gregorian reform',
     'The tests sample a few dozen of 1.1 million days; errors hide at particular years, month ends and eras.',
     ['_timedateutils.py', 'badi_calendar.py', 'datetime.py'],
     [('ordinal from the year start', '_timedateutils.py: _ymd2ord, _days_before_year'), ('date from an ordinal by Julian day', '_timedateutils.py: _ord2ymd'), ('year by Rata Die', 'badi_calendar.py: _badi_year_from_rd')],
     ['date.toordinal', 'date.fromordinal', 'date.weekday', 'date - date'],
     RM + 'reference-calendar oracle over all years (quick) and all days (thorough)',
     'Quick observes the edge days of all 3004 years and random others, thorough all 1.097 million days.')

prop('C04', 'Badí dates and Julian days are a bijection at every place',
     'For every date, time, and place up to 60 degrees of latitude, converting to a Julian day and back returns the date and time to within 5 milliseconds, and the other way round; a time past the next sunset belongs to the next day. Elapsed time is kept: the Julian day of a time, or of a day with a fraction, is that of the sunset plus that time, and a later moment never has an earlier date and time.',
     [IN, CF], 'all dates, times of the day, places, and Julian days of the range',
     'The product of days, times, and places is unbounded; the tests hold about a hundred fixed points, most for Tehran.',
     ['badi_calendar.py', 'base_calendar.py'],
     [('sunset lookup on both sides of the moment', 'badi_calendar.py: _utc_to_badi_time'), ('Julian day from a date', 'badi_calendar.py: jd_from_badi_date'), ('date from a Julian day', 'badi_calendar.py: badi_date_from_jd')],
     ['jd_from_badi_date', 'badi_date_from_jd', 'badi_date_from_timestamp', 'timestamp_from_badi_date'],
     RM + 'round-trip, conservation of elapsed time, and ordering monitors',
     'Random and edge-weighted exploration; the sunsets used as the frame are judged by C21.')

prop('C05', 'Gregorian dates and Julian days are a bijection',
     'In exact mode the Julian day of a Gregorian date is a fixed offset from the proleptic Gregorian day count, for every day of the years 1 to 3005, and converting back returns the date and the fraction of the day. In historical mode the Julian calendar holds up to 1582-10-04 and the Gregorian one from 1582-10-15, the days between are refused, and both directions are inverse; the alternate 4/128 leap rule is a bijection too.',
     [IN], 'every day of the years 1 to 3005 and every fraction of a day',
     'The tests sample a few hundred dates; leap and century boundaries and fractions are the places where the formulas break.',
     ['gregorian_calendar.py', 'base_calendar.py'],
     [('day counts of years', 'base_calendar.py: _days_in_years'), ('conversions', 'gregorian_calendar.py: jd_from_gregorian_date, gregorian_date_from_jd')],
     ['jd_from_gregorian_date', 'gregorian_date_from_jd', 'gregorian_year_from_jd'],
     RM + 'standard library and integer-calendar oracles',
     'Year ends and leap days of all years, whole months of a sixth of the years (quick) or of all of them (thorough).')

prop('C06', 'Badí and Gregorian dates name the same days everywhere',
     'At every place the Badí date at local noon of a Gregorian day is the one that began on the evening before, and late in the evening it is the one that began that evening. Converting a Badí date to a Gregorian date and back returns it, the zone shifts the Gregorian time and nothing else, and the named days (Naw-Rúz, first day of Riḍván) and sunsets agree with the conversions of their dates.',
     [IN, CF], 'all dates and places up to 58 degrees of latitude',
     'The tests fix some dozen pairs, mostly at Tehran and Raleigh.',
     ['badi_calendar.py', 'gregorian_calendar.py'],
     [('conversions by way of the Julian day', 'badi_calendar.py: badi_date_from_gregorian_date, gregorian_date_from_badi_date'), ('named days', 'badi_calendar.py: naw_ruz_g_date, first_day_of_ridvan_g_date, utc_sunset')],
     ['badi_date_from_gregorian_date', 'gregorian_date_from_badi_date', 'naw_ruz_g_date', 'first_day_of_ridvan_g_date', 'utc_sunset'],
     RM + 'reference-calendar and standard library oracles',
     'Random and edge-weighted exploration over dates and places.')

prop('C07', 'The long and the short form of a date are the same date',
     'Kull-i-Shay, Váḥid, and year of the long form and the year of the short form convert into each other exactly for every year, with month, day, and time unchanged, and a time survives the conversion to a fraction of the day and back. Date and datetime objects of the two forms of one day are equal, hash alike, and have the same ordinal, weekday, and ISO string; parts out of range are refused.',
     [IN], 'every year of the range with any month, day, and time',
     'The conversion uses floating point division by 19 and 361; the tests sample a dozen years.',
     ['badi_calendar.py', 'datetime.py'],
     [('form conversions', 'badi_calendar.py: long_date_from_short_date, short_date_from_long_date, kvymdhms_from_b_date, date_from_kvymdhms')],
     ['long_date_from_short_date', 'short_date_from_long_date', 'date, datetime objects'],
     RM + 'integer-arithmetic oracle over every year',
     'All 3004 years in both tiers, with random days and times.')

prop('C08', 'Date arithmetic, order, and hashing follow the count of days',
     'The difference of two dates is the number of days between them, adding days and subtracting them again is the identity, and sums that leave the range are refused with OverflowError. Dates of either form are ordered, compared, sorted, and hashed by the day they name, replace changes only the named fields, and no operation changes an existing object.',
     [IN], 'all pairs of dates and all day counts, both forms',
     'Order and sums are relations over pairs of a million days; Ayyám-i-Há (month 0, after month 18) breaks every naive comparison.',
     ['datetime.py'],
     [('sums by ordinals', 'datetime.py: date.__add__, __sub__'), ('order by the place in the year', 'datetime.py: date._cmp, __hash__'), ('replace', 'datetime.py: date.replace')],
     ['date', 'operators', 'hash', 'sorted', 'replace'],
     RM + 'reference-calendar oracle, sorting and hashing monitors',
     'Random pairs, near neighbours and whole-range; excludes the years whose ordinals C03 records as known.')

prop('C09', 'Weeks partition the days',
     'Week 1 of a year is the week, beginning on Jalál, that holds the fourth day of Bahá. isocalendar gives for every day the year, week, and weekday by that rule, so that weeks of 7 days follow each other without gaps, and fromisocalendar is its inverse.',
     [IN], 'every year of the range and every week of it',
     'Whether a year has 52 or 53 weeks depends on its leap status and first weekday; the tests sample a dozen.',
     ['datetime.py', '_timedateutils.py'],
     [('week of a date', 'datetime.py: date.isocalendar'), ('date of a week', '_timedateutils.py: _isoweek_to_badi, _isoweek1jalal')],
     ['date.isocalendar', 'date.fromisocalendar', 'isoweekday'],
     RM + 'week-rule oracle over every year',
     'The first and last weeks of all years in both tiers. fromisocalendar misnumbers week 52/53 of years with certain first days, pinned by the tests: known findings.')

prop('C10', 'ISO strings are written exactly and read back as the same value',
     'isoformat and str of dates, datetimes, and times give the padded ISO fields, precision, separator, and offset asked for; fromisoformat reads every ISO layout of a date (extended, compact, month, ordinal day, week) and every offset back as the value that was written; strings that name no date, time, or offset are refused.',
     [IN], 'all dates, times, offsets from -23:59 to +23:59, layouts, and damaged strings',
     'The layouts multiply with separators, precisions, signs, and year widths; the tests hold a few dozen strings.',
     ['datetime.py', '_timedateutils.py'],
     [('formatting', 'datetime.py: isoformat, _format_time'), ('parsing', '_timedateutils.py: _parse_isoformat_date_time_timezone')],
     ['date.isoformat', 'date.fromisoformat', 'datetime.isoformat', 'datetime.fromisoformat', 'time.isoformat', 'time.fromisoformat', 'str'],
     RM + 'independent formatter and round-trip monitors',
     'Exploration over drawn values and layouts; damaged strings are of fixed kinds.')

prop('C11', 'strftime writes the fields and strptime reads them back',
     'Every directive of strftime writes the documented field of the date, time, and offset, in either form, with literal text and %% unchanged. strptime with a format that determines a date returns the value whose strftime with this format is the string, for every separator, case, and offset; strings that do not match the format, have fields out of range, or leave text over are refused with ValueError.',
     [IN], 'all dates, times, offsets, and sequences of directives and literals',
     'The directives combine freely with each other, literals, forms, and offsets; the tests look at each directive a few times.',
     ['_timedateutils.py', '_strptime.py', 'datetime.py'],
     [('one method per directive', '_timedateutils.py: strftime and the methods of its table'), ('regular expression of a format', '_strptime.py: TimeRE, _strptime'), ('objects from the parsed fields', '_strptime.py: _strptime_datetime, _strptime_time')],
     ['date.strftime', 'datetime.strftime', 'time.strftime', 'datetime.strptime', '__format__'],
     RM + 'independent formatter oracle and round-trip monitors over drawn formats',
     'Exploration. Directives whose text is ambiguous or loses information (%b, %c, %D, %x, %y, %C, %U/%W) are judged on writing only. The minutes of %z are a known finding.')

prop('C12', 'Pickled, copied, and printed values come back equal',
     'A date, datetime, time, timedelta, timezone, or TZWithCoords of either form, with any zone, survives pickle (every protocol), copy, and deepcopy as an equal object of the same class with the same form, fields, offset, name, and hash, and its fold from protocol 4 on; repr of dates and timezones evaluates to an equal object. Damaged state strings do not become values out of range.',
     [IN, HI], 'all values, every pickle protocol, damaged pickles',
     'The packed bytes carry the year in parts; each byte value (Ayyám-i-Há is 0, hours up to 24) is a separate case.',
     ['datetime.py'],
     [('packed state', 'datetime.py: _get_state, __setstate, __reduce__, __reduce_ex__'), ('state accepted by constructors', 'datetime.py: date.__new__, datetime.__new__, time.__new__'), ('state of a zone', 'datetime.py: timezone.__getinitargs__, TZWithCoords')],
     ['pickle', 'copy', 'repr'],
     RM + 'round-trip monitor over drawn values and protocols',
     'Exploration over drawn values, all protocols.')

prop('C13', 'Datetime arithmetic, order, and hashing follow elapsed time',
     'The difference of two datetimes of one zone is the days between them times 24 hours plus the difference of their times, to the microsecond; adding a timedelta and taking it away is the identity, results that leave the range are refused. Order, equality, and hash agree with each other, with the offsets of aware values, and between the forms; naive and aware values are unequal and refuse to be ordered. combine, replace, date, time, and timetz split and join a value without loss.',
     [IN], 'all pairs of datetimes, offsets, and timedeltas, both forms',
     'Order and sums are relations over pairs of values; carries happen at the day, month, Ayyám-i-Há, and year ends.',
     ['datetime.py'],
     [('sums', 'datetime.py: datetime.__add__, __sub__'), ('order and equality', 'datetime.py: datetime._cmp, __hash__'), ('parts', 'datetime.py: combine, replace, date, time, timetz, astimezone')],
     ['datetime', 'operators', 'hash', 'combine', 'replace', 'astimezone'],
     RM + 'integer-microsecond oracle, order and hash monitors',
     'Exploration over random pairs and near neighbours; excludes the three years whose ordinals C03 records.')

prop('C14', 'Timestamps and dates are inverse and follow the Sun',
     'fromtimestamp gives, for every timestamp and place, the Badí date of that moment: its time of the day is the time since the sunset there. timestamp() is the inverse, later moments never have earlier datetimes, seconds are kept, and now and today lie between the clock readings around them; the two forms agree.',
     [IN, CF], 'all timestamps of the range, with fractions, and places',
     'The tests hold a dozen timestamps; each day has its own sunset and length.',
     ['datetime.py', 'badi_calendar.py', '_timedateutils.py'],
     [('conversions by the Julian day', 'badi_calendar.py: badi_date_from_timestamp, timestamp_from_badi_date'), ('constructors', 'datetime.py: fromtimestamp, now, today'), ('timestamp', 'datetime.py: timestamp, _mktime')],
     ['datetime.fromtimestamp', 'datetime.timestamp', 'date.fromtimestamp', 'datetime.now'],
     RM + 'independent sunset model, round-trip, order, and conservation monitors',
     'Exploration. Aware timestamps, which count 24-hour days, are a known finding and are judged against that rule.')

prop('C15', 'Values out of range are refused and values in range accepted',
     'Constructors, replace, conversions, and formatting accept every date and time whose parts lie in the ranges of the calendar, and refuse every one with a month, day, hour, minute, second, microsecond, year, zone, coordinate, or type outside of them. Ayyám-i-Há has 4 or 5 days as the year requires. A fraction of an hour, minute, or second spreads to the smaller fields without ever making one out of range, and a refused call leaves the values it was given unchanged.',
     [IN], 'every field pushed below, to, and above its range in every constructor, missing and surplus parts, wrong types',
     'Each field, form, and entry point has its own bounds, so the product of them is large; the tests try some forty.',
     ['badi_calendar.py', '_timedateutils.py', 'datetime.py'],
     [('validation of dates and times', '_timedateutils.py: _check_date_fields, _check_time_fields; badi_calendar.py: _check_valid_badi_date, _check_valid_badi_time'), ('time tuples', '_timedateutils.py: _checktm'), ('zones', 'datetime.py: timezone.__new__, _check_tzinfo_arg')],
     ['date(), datetime(), time(), timezone()', 'jd_from_badi_date', 'strftime of time tuples'],
     RM + 'range oracle over damaged fields, invariant on every accepted value',
     'Exploration. The leap status of all 3004 years is observed. Which exception refuses is judged loosely.')

prop('C16', 'Time tuples and ctime carry the fields of the moment',
     'timetuple, utctimetuple, and ctime give the date and time of the object, with its weekday, its day of the year, and its summer-time flag, in either form; utctimetuple is the moment less the offset, with the carries into day, month, Ayyám-i-Há, and year. The named fields of the tuple are the items of it.',
     [IN], 'all dates, times, offsets, summer-time flags, both forms',
     'The carries happen at month, Ayyám-i-Há, and year ends and depend on offset and leap status; the tests hold a dozen values.',
     ['datetime.py', '_timedateutils.py', '_structures.py'],
     [('tuples', '_timedateutils.py: _build_struct_time; datetime.py: timetuple, utctimetuple'), ('structure', '_structures.py: ShortFormStruct, LongFormStruct'), ('text', 'datetime.py: ctime')],
     ['date.timetuple', 'datetime.timetuple', 'datetime.utctimetuple', 'ctime'],
     RM + 'reference-calendar oracle',
     'Days of all years, and random moments and offsets. The three years of C03 are left out of the counted days.')

prop('C17', 'Times of the day are ordered, hashed, and shifted consistently',
     'Times compare by their microseconds less their offset, equal times hash alike whatever the fold or zone, the order is transitive and sorts; a fraction of an hour, minute, or second is the same moment as the smaller units it stands for; naive and aware times are unequal and refuse to be ordered. replace changes only the named fields, and offsets, names, and formats are those of the zone given.',
     [IN], 'all pairs and triples of times, offsets, folds',
     'Order is a relation over pairs of times and offsets with seconds and microseconds; the tests compare about twenty.',
     ['datetime.py'],
     [('order', 'datetime.py: time._cmp'), ('hash', 'datetime.py: time.__hash__'), ('replace', 'datetime.py: time.replace')],
     ['time', 'operators', 'hash', 'replace', 'utcoffset'],
     RM + 'integer-microsecond oracle, order and hash monitors',
     'Exploration over random pairs and near neighbours.')

prop('C18', 'Time zones keep their offset, name, coordinates, and summer time',
     'A timezone has exactly the offset and name it was made with, equal offsets compare and hash equal, offsets of a day or more are refused, and fromutc adds the offset to the moment. A TZWithCoords keeps its coordinates and zone, or those of the IANA zone it was made from including its summer time, however many others are made, and through pickle and copy.',
     [IN, HI], 'all offsets to the microsecond, coordinates, IANA zones, orders of creation',
     'State shared between instances only shows when several zones are made and used in turn; the tests use each alone.',
     ['datetime.py'],
     [('fixed offsets', 'datetime.py: timezone'), ('zones with coordinates', 'datetime.py: TZWithCoords'), ('constants', 'datetime.py: UTC, BADI, GMT, LOCAL')],
     ['timezone', 'TZWithCoords', 'utcoffset, tzname, dst, fromutc'],
     RM + 'integer-offset and zone-database oracles, independence monitor over interleaved instances',
     'Exploration; the summer time is that of the zone database for a dozen zones.')

prop('C19', 'Conversions between units of time and angle lose nothing',
     'Degrees, minutes, and seconds of an angle or hour angle, days, hours, minutes, seconds, and microseconds of a duration, and the parts of a day convert to one number and back exactly or within the stated rounding, with sign, direction, and carries kept. Every part that results is within its range.',
     [IN], 'all angles, durations, times of the day, and day fractions',
     'Rounding and carries (59.9999995 seconds, -0.5 degrees) break single values out of billions.',
     ['base_calendar.py', 'badi_calendar.py', 'gregorian_calendar.py'],
     [('angles', 'base_calendar.py: _decimal_from_dms, _dms_from_decimal, _degrees_from_hms, _hms_from_degrees'), ('durations', 'base_calendar.py: _seconds_from_dhms, _dhms_from_seconds'), ('days', 'base_calendar.py: _hms_from_decimal_day, _decimal_day_from_hms, _sec_microsec_from_seconds')],
     ['the conversion methods named', 'kvymdhms_from_b_date, date_from_kvymdhms', 'ymdhms_from_date, date_from_ymdhms'],
     RM + 'rational-arithmetic oracle and inversion monitors',
     'Exploration; durations of two days or more are judged by their sum only.')

prop('C20', 'Historical and exact Julian days convert into each other',
     'Between the Julian day of the historical calendar (Julian up to 1582-10-04) and the exact count of proleptic Gregorian days, the conversions are inverse to each other and keep the calendar label and the fraction of the day, for every day that has both. They never go backwards, and days that only one of the calendars has are refused.',
     [IN], 'every day of the years 1 to 3005 with fractions, and the refused days',
     'The correction changes at each century and at the reform; one wrong boundary shifts dates for days or centuries, and the tests hold about twenty.',
     ['base_calendar.py'],
     [('conversions', 'base_calendar.py: _meeus_from_exact, _exact_from_meeus')],
     ['_meeus_from_exact', '_exact_from_meeus', 'gregorian_date_from_jd in both modes'],
     RM + 'integer-calendar oracle',
     'Year ends and ends of February of all years in quick, every day in thorough.')

prop('C21', 'Sunset, sunrise, and transit are those of the Sun',
     'For every day of the years -100 to 3005 and every place up to 66 degrees of latitude, sunset, sunrise, and transit are the moments at which the Sun stands there, to within seconds (a minute for far years and high latitudes), and they belong to the local day asked for. Sunrise, noon, and sunset follow each other, the events of the next day are the next ones, an altitude offset shifts them as the sky does, and the sunset and the length of each Badí day follow them.',
     [IN, CF], 'all days and places, altitude offsets',
     'The events depend on day, latitude, and longitude through iterated formulas; the tests fix about thirty of them.',
     ['base_calendar.py', 'badi_calendar.py'],
     [('events', 'base_calendar.py: _rising_setting, _rise_set_correction, _sun_transit, _sun_rising, _sun_setting'), ('length of the day, and sunset of a date', 'badi_calendar.py: _day_length, utc_sunset')],
     ['_sun_setting', '_sun_rising', '_sun_transit', '_day_length', 'utc_sunset'],
     RM + 'independent solar model (VSOP87) as online checker',
     'Exploration. The tolerance follows the error of the theory in use, so an error of seconds in far years stays unseen.')

prop('C22', 'Equinoxes and solstices are found in the year asked for',
     'For every year from -150 to 3005 and each of the four seasons, the moment found is that at which the Sun reaches the longitude of the season, the same from whatever day of the year it is asked, and shifted by the zone alone. The four of a year follow each other, and those of consecutive years are a tropical year apart.',
     [IN], 'all years, seasons, days of the year to ask from, zones',
     'The polynomials change at the year 1000 and each season has its own; the tests hold some twenty moments, mostly March of recent years.',
     ['base_calendar.py', '_astronomical_terms.py'],
     [('mean moment', 'base_calendar.py: _approx_julian_day_for_equinoxes_or_solstices'), ('periodic terms', 'base_calendar.py: _find_moment_of_equinoxes_or_solstices')],
     ['_find_moment_of_equinoxes_or_solstices', '_approx_julian_day_for_equinoxes_or_solstices'],
     RM + 'independent solar model over every year',
     'All years and seasons in both tiers. The moments are in dynamical time, a known finding judged against that rule.')

prop('C23', 'The ephemeris of the Sun agrees with an independent one',
     'Longitude, right ascension, declination, obliquity, nutation, Delta T, sidereal time, altitude, and distance of the Sun agree with an independent theory for every moment of the years -150 to 3100, each to the accuracy of the theory it is computed by. Results in radians and in degrees are the same angle, and a new object gives the same as a used one.',
     [IN, HI], 'all moments, angles, objects new and used',
     'A wrong term in a series of hundreds moves single moments by little; the tests hold three or so moments for each.',
     ['base_calendar.py', '_astronomical_terms.py', 'julian_period.py'],
     [('series', '_astronomical_terms.py'), ('Sun and Earth', 'base_calendar.py: _sun_apparent_longitude to _aberration, _delta_t, _nutation_obliquity_longitude')],
     ['the methods named'],
     RM + 'independent solar model as online checker',
     'Exploration. The apparent longitude, unused by the calendar, mixes degrees with radians: a known finding judged against that rule.')

prop('C24', 'AM and PM change at midday, and the clock of 12 hours counts 1 to 12',
     'Midday of every day is half the time from sunset to sunset in Greenwich; of all times of a day, in either form, those before it are AM and those after it PM. Hours of the 12-hour clock are 1 to 12, and a time written with hour and AM or PM is read back as the same time.',
     [IN], 'all dates and times of the day, times around noon',
     'Midday depends on the date and the time and is off noon by up to a minute; the tests fix two of them.',
     ['badi_calendar.py', '_timedateutils.py', '_strptime.py'],
     [('midday', 'badi_calendar.py: midday; _timedateutils.py: _find_midday'), ('directives', '_timedateutils.py: p, I, l, r'), ('reading', '_strptime.py: _parse_found_dict')],
     ['midday', 'strftime', 'strptime'],
     RM + 'independent solar model, order and read-back monitors',
     'Exploration; the minute between noon and midday is not read back, a known finding.')

prop('C25', 'The local place set is the one that local conversions use',
     'After the local coordinates are set, now, today, fromtimestamp, and timestamp without a zone give the result for this place and the offset of the system zone; without coordinates they give that for Tehran. Setting them again replaces them everywhere at once, and conversions with a place of their own and the constant zones are never affected.',
     [CF, HI], 'all places, system time zones, and histories of setting them',
     'The place is module state read in several modules; the tests set it once and look at the constant.',
     ['__init__.py', 'datetime.py'],
     [('configuration', '__init__.py: set_local_coordinates, _get_local_coordinates, _locale_config'), ('use', 'datetime.py: fromtimestamp, _mktime, _local_timezone')],
     ['set_local_coordinates', 'LOCAL_COORD', 'LOCAL', 'datetime.now', 'datetime.fromtimestamp', 'datetime.timestamp'],
     RM + 'histories of settings against conversions with explicit place',
     'Exploration over a dozen system zones. Looking up a place by name needs the network and is not observed.')

prop('C26', 'Results do not depend on other threads or on earlier calls',
     'Every conversion, parse, and format gives the same result alone on new objects, on objects used before for other dates and places, after calls that were refused, in any order, and while other threads use the same objects. No call changes shared tables or constants.',
     [SC, HI], 'all orders and interleavings of calls on shared objects, with switches between any two lines',
     'The tests run single calls in one thread; caches keyed wrongly or read twice only show under other orders and schedules.',
     ['base_calendar.py', '_strptime.py', '_timedateutils.py', 'datetime.py'],
     [('nutation cache', 'base_calendar.py: _nutation_longitude, _nutation_obliquity'), ('format cache', '_strptime.py: _find_regex'), ('shared calendar object', '_timedateutils.py: _td_utils')],
     ['all public conversions'],
     RM + 'recorded histories of threads with injected switches, compared with runs alone',
     'Exploration over thousands of interleavings; switches are injected at line boundaries inside the code.')
