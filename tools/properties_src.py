# Source of /verif/properties.jsonl.  (id, title, statement, over, text, why, files, mechanism)
P = []


def p(pid, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=pid, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                               observe_at=observe or [m[1] for m in mech],
                               hook_needed=None)))


p("C01", "Calendar, pentad and month-sequence arithmetic agrees with the calendar",
  """Day of year, month lengths, previous day, previous/next month, month sequences, seasons and the 73 five-day pentads
  agree with the Gregorian calendar for every date (365-day climatological years treat 29 February as 1 March), and mapping
  a pentad to its first day and back returns the same pentad. Days and months that do not exist are reported as such and are never
  mapped onto another date or season.""",
  ["inputs"], "every year, month and day (valid and invalid), every pentad, every start and end month of a sequence",
  """Tests sample a few dates around year ends and leap days; every climatology lookup, buddy check and monthly run depends on
  every other date too.""",
  ["qc.py"],
  [("day_in_year / which_pentad / pentad_to_month_day", "qc.py"), ("dayinyear / get_month_lengths / yesterday", "qc.py"),
   ("year_month_gen / next_month_is / last_month_was / season", "qc.py")])

p("C02", "Julian day and elapsed time are exact, signed and additive",
  """The Julian day number grows by exactly one per calendar day and matches the Gregorian calendar for every date; the elapsed time
  between two date-times is the true number of hours between them whatever month, year or leap-day boundary lies between. Swapping the two times
  negates the result, times add up along a chain, and a missing hour gives no answer instead of a number.""",
  ["inputs"], "all pairs and triples of valid dates 1750-2100 with any hour in [0,24) or missing",
  """Tests compare a handful of pairs; speed, track, drifter and sort logic all take differences over arbitrary boundaries.""",
  ["qc.py"], [("jul_day", "qc.py"), ("time_difference", "qc.py")])

p("C03", "Every position maps to the one grid cell that contains it",
  """For every latitude in [-90,90] and longitude in [-180,360), and for 1-degree and finer grids, the grid indices are in range and the cell they name contains
  the position, with cell edges resolved as documented (the default grid pushes edges south and east, the MDS grid pushes them away from the equator and
  from Greenwich, poles and dateline stay inside). Mapping a cell centre to indices and back is the identity, and a longitude written as
  0..360 maps to the same cell as its -180..180 equivalent.""",
  ["inputs"], "all positions incl. cell edges, poles, dateline, both longitude conventions, several resolutions",
  """Tests look at a few points; an off-by-one in one hemisphere or at one resolution silently compares observations with the wrong
  climatology.""",
  ["qc.py"], [("lat_to_yindex / lon_to_xindex", "qc.py"), ("mds_lat_to_yindex / mds_lon_to_xindex", "qc.py"),
              ("yindex_to_lat / xindex_to_lon", "qc.py")])

p("C04", "Great-circle distance, course and positions obey spherical geometry",
  """Distances are those of a sphere of the project's Earth radius: symmetric, zero only for the same point, at most half the circumference,
  unaffected by adding 360 degrees to a longitude and accurate for tiny as well as antipodal separations. Courses between points and positions reached by
  course and distance or by fraction of the way agree with vector geometry on that sphere, are mutually consistent, positions come back as valid latitudes
  and longitudes even across the dateline and near the poles, and the angle between two directions is the shorter way round.""",
  ["inputs"], "all pairs of points on the sphere, all courses and distances, fractions in [0,1]",
  """Tests fix a few pairs; track checks chain these functions over dateline, pole and coincident-point cases that are not sampled.""",
  ["spherical_geometry.py", "qc.py"],
  [("angular_distance / sphere_distance", "spherical_geometry.py"), ("course_between_points", "spherical_geometry.py"),
   ("lat_lon_from_course_and_distance / intermediate_point", "spherical_geometry.py"), ("angle_diff", "qc.py")])

p("C05", "Day/night decision follows the sun's true elevation",
  """A report is called daytime exactly when the sun was above the horizon the configured time earlier at that place (marine reports), or is above the configured
  elevation at the time of the report (drifter reports), for every date 1850-2024, hour, latitude and longitude; only cases where the sun is within the scheme's
  stated fraction of a degree of the threshold may go either way. The decision does not depend on how the longitude is written and is right
  across midnight and new year. The azimuth (east of north), right ascension, hour angle, local sidereal time and declination that the solar routine returns alongside are
  those of the real sun to the same accuracy, angles modulo 360 degrees, in both hemispheres and at the equator.""",
  ["inputs"], "all dates 1850-2024, hours [0,24), latitudes, longitudes in either convention, look-back 0-3 h, thresholds",
  """Tests sample a few places and dates; the algorithm's leap-year and century bookkeeping differs for each year and wraps at several places.""",
  ["qc.py", "trackqc.py"], [("sunangle / day_test", "qc.py"), ("track_day_test", "trackqc.py")])

p("C06", "Value checks flag exactly the values outside their documented limits",
  """Missing-value, hard-limit, climatology (plain, standardised with clamped standard deviation, and with a minimum anomaly), missing-climatology, supersaturation, freezing-point
  and wind speed/direction consistency checks return exactly 0 or 1 and fail exactly when the documented inequality is violated, limits being inclusive passes.
  A missing value, climatology or spread fails the limit, climatology and supersaturation checks, while the freezing check passes a missing SST.""",
  ["inputs"], "all values, limits, climatologies, standard deviations and None, with values at, just inside and just outside the limits",
  """Tests use one or two values per check; inclusive/exclusive, abs/sign and None-precedence errors only show at particular combinations.""",
  ["qc.py"], [("hard_limit / climatology_* / value_check / supersat_check / sst_freeze_check / wind_consistency", "qc.py")])

p("C07", "Position, date and time checks accept exactly the valid values",
  """The position check passes exactly latitudes -90..90 with longitudes -180..360, the date check passes exactly dates that exist in the years 1850-2024, and the time
  check passes exactly hours in [0,24); anything else, including missing days and hours and months outside 1-12, is flagged with 1 and never raises. A report with an impossible date or time can be
  built, put through these checks and comes out flagged rather than stopping the run.""",
  ["inputs"], "all integers/None for year, month, day; all hours incl. None and out of range; all finite positions",
  """Tests check a few invalid dates; real archives contain every kind of corrupt field and one crash loses the whole month.""",
  ["qc.py", "Extended_IMMA.py"],
  [("position_check / date_check / time_check", "qc.py"), ("MarineReport construction and do_*_check", "Extended_IMMA.py")])

p("C08", "Blacklists and platform classes match their definitions",
  """A report is blacklisted exactly when it is at 0N 0E, comes from a C-MAN platform, a listed identifier and period, deck 874, or
  deck 732 inside one of that year's listed regions; the air-temperature, wind and humidity blacklists and ship, buoy and deck-780 classes
  likewise follow their documented deck, platform, year and area lists, area edges included. The result does not depend on whether a longitude is given
  as -180..180 or 0..360.""",
  ["inputs"], "all decks, platform types, IDs, years, months and positions, both longitude conventions",
  """Tests probe a few regions and years out of 17 x 17 combinations and one longitude convention.""",
  ["qc.py", "Extended_IMMA.py"],
  [("blacklist", "qc.py"), ("mat_blacklist / wind_blacklist / humidity_blacklist / is_*", "Extended_IMMA.py"), ("id_is_generic", "qc.py")])

p("C09", "Base QC of a report sets every flag to its check's verdict, repeatably",
  """Base QC sets for every report every documented position, SST, air-temperature, dew-point, wind and pressure flag to 0 or 1, equal to the verdict of the corresponding documented check on that
  report's own values, climatology and configured parameters. The wind, pressure, SST and day-time air-temperature variants and the older stand-alone routine do the same for their own flags. Running it again changes nothing, and it never alters the report's
  data other than the documented correction of a missing hour (deck 701 before 1860 is set to midnight).""",
  ["inputs", "configurations"], "all reports (missing variables, bad positions, any platform) with any parameter set; one or more applications",
  """Tests run base QC on a few hand-made reports and inspect single flags.""",
  ["Extended_IMMA.py", "qc.py"],
  [("MarineReportQC.perform_base_* / do_*", "Extended_IMMA.py"), ("base_qc_report", "qc.py")])

p("C10", "Climatology lookups return the field value of the right cell and time",
  """Looking up a climatology (single field, pentad, or daily; either grid convention) for any date and place returns exactly the field value of the cell and time step that contain it,
  and no value where the field is missing or the date does not exist. A field read from file gives the same answers whether the file stores latitude north-first
  or south-first and longitude from -180 or from 0, and the library returns exactly what was stored for each variable and statistic.""",
  ["inputs", "configurations"], "all dates and positions, masked and plain fields with 1, 73 or 365 steps, all file orientations",
  """The climatology tests need data files that are not distributed; the remaining ones look at constant fields.""",
  ["Climatology.py", "qc.py", "Extended_IMMA.py"],
  [("Climatology.get_value*/from_filename/get_tindex", "Climatology.py"), ("get_sst / get_sst_daily / get_hires_sst / get_clim", "qc.py"),
   ("ClimatologyLibrary / MultivariableClimatology", "Extended_IMMA.py")])

p("C11", "Interpolated climatology is bilinear, gap-filled and bounded",
  """The interpolated climatology at any place is the bilinear interpolation of the four surrounding cell-centre values (gaps filled from the neighbouring corners, longitude periodic), equals
  the cell value at a cell centre, reproduces constant and linear fields, never leaves the range of the values used and is missing exactly when no
  cell touching the position has data. It gives an answer at every latitude and longitude (-180..180) of a 1-degree field including poles, dateline and cell edges.""",
  ["inputs"], "all positions (edges, centres, poles, dateline), all corner values with any pattern of gaps, masked fields",
  """Tests cover hand-picked corners; the fill rules and edge handling combine 16 gap patterns with boundary cases.""",
  ["qc.py", "Climatology.py"],
  [("bilinear_interp / fill_missing_vals / get_four_surrounding_points / get_clim_interpolated", "qc.py"),
   ("Climatology.get_interpolated_value", "Climatology.py")])

p("C12", "Humidity conversions follow the published formulae and stay consistent",
  """Vapour pressure (over water or, below freezing wet bulb, over ice), specific and relative humidity, wet-bulb, dew-point and dew-point depression equal the documented formulae, rounded to one decimal only when asked;
  vapour pressure converts to specific humidity and back without loss, and to dew point and back unless the air is very dry. Relative humidity is 100 percent at saturation; vapour pressure, specific and relative humidity rise with dew point
  at fixed temperature and pressure (ice/water switch in very dry air apart); a missing dew point, temperature or pressure gives a missing result, and a report's humidity is missing if its climatological pressure is missing or relative humidity is not within 0-150 percent.""",
  ["inputs"], "all dew points, temperatures (-60..50C) and pressures (800..1080hPa), missing values, rounded and unrounded",
  """Tests evaluate one point per function; the ice/water switch and rounding interact over the whole range.""",
  ["CalcHums.py", "Extended_IMMA.py"],
  [("vap / sh / rh / wb / dpd / td_from_vap / vap_from_sh / sh_from_vap", "CalcHums.py"),
   ("MarineReport.calculate_humidity_variables", "Extended_IMMA.py")])

p("C13", "Gross-error probability is Bayes' rule on a quantised, truncated normal",
  """The probability of a gross error is the Bayesian posterior of a uniform gross-error model against a normal model truncated to the limits and quantised to the reporting step: between 0 and 1, equal to the prior's extremes
  at priors 0 and 1, growing with the prior and with the distance of the observation from the expected value. The two likelihoods each sum to one over the
  quantised values allowed.""",
  ["inputs"], "all priors, quantisation steps, limits, observations inside limits, means and spreads within the numerically meaningful range",
  """Tests compare a few numbers and cannot check normalisation or monotonicity.""",
  ["qc.py"], [("p_gross / p_data_given_good / p_data_given_gross", "qc.py")])

p("C14", "IMMA records survive decode and encode",
  """Every field of an IMMA record (core and each attachment) decodes to the scaled number or text at its documented columns, blank fields are missing, and writing the record and reading it
  again yields the same values for every variable, positive or negative, at the format's resolution, with attachments (each at most once) kept in order and complete. The reduced readers (simple, test and near-real-time) extract the same documented columns.""",
  ["inputs", "histories"], "all valid field values incl. extremes, negatives and blanks, any set of attachments in any order, repeated round trips",
  """No test covers the record reader or writer at all.""",
  ["IMMA1.py", "SimpleIMMA.py", "TestIMMA.py", "NRT.py"],
  [("IMMA.readstr / decode / encode / write", "IMMA1.py"), ("IMMA.readstr", "SimpleIMMA.py"), ("IMMA.readstr", "TestIMMA.py"),
   ("NRT.readstr", "NRT.py")])

p("C15", "A report stores and returns exactly its own values, anomalies and flags",
  """A report built from a record returns each variable as recorded, latitude and longitude (-180..180) consistently, and after any sequence of updates returns for every variable, extra value, climatology
  and flag the last value set for it, with unset flags reading as not-set (9), flags limited to single digits and unknown names giving nothing. Anomalies are value minus climatology (divided by standard deviation when normalised) and missing if
  either part is missing; the report's time always reflects its current date and hour; nothing leaks between reports.""",
  ["inputs", "histories"], "all records and any interleaving of set/get operations on several reports",
  """Tests set and get single items on fresh reports; leakage and staleness only show over sequences.""",
  ["Extended_IMMA.py"],
  [("MarineReport.__init__/getvar/setvar/getext/setext/set_qc/get_qc/getanom/get_normalised_anom/calculate_dt", "Extended_IMMA.py"),
   ("ClimVariable", "Extended_IMMA.py")])

p("C16", "Reports order by time and voyages keep consistent motion data",
  """Reports compare and sort by identifier then time in a total order, and subtracting two reports gives their great-circle distance, initial course, elapsed hours and speed (when no time has elapsed, or an hour is missing, zero hours and the distance as speed).
  Whatever order reports are added in, after sorting, a voyage holds exactly the same reports in time order, each carrying the motion from its predecessor and the first carrying none, and the summary and alternate speeds follow from those.""",
  ["inputs", "histories"], "any sequence of add and sort operations, shuffled and duplicate times, coincident positions",
  """Tests add two or three in-order reports; shuffled histories and re-sorting are never exercised.""",
  ["Extended_IMMA.py"],
  [("MarineReport.__sub__/__gt__/__ge__/__le__/__eq__", "Extended_IMMA.py"), ("Voyage.add_report / sort / get_speed / meansp / calc_alternate_speeds", "Extended_IMMA.py")])

p("C17", "Splitting a deck by platform or filter loses and duplicates nothing",
  """After any history of appending, sorting, removing and re-indexing reports, visiting a deck one platform at a time yields every report exactly once, grouped with all reports of the same platform and only those, and removing returns reports in order.
  Splitting reports with a quality filter puts each report in exactly one of the two outputs, passing exactly those whose listed flags all have the required values.""",
  ["histories", "inputs"], "any interleaving of append/sort/index/pop/visit; any filters and flag settings",
  """Tests append a couple of reports once; stale index entries appear only in longer histories.""",
  ["Extended_IMMA.py"],
  [("Deck.append/sort/index_by_id/pop/get_one_platform_at_a_time", "Extended_IMMA.py"), ("QC_filter.test_report / split_reports", "Extended_IMMA.py"),
   ("Deck.set_qc/add_filter", "Extended_IMMA.py")])

p("C18", "MDS buddy check compares each report with the right neighbours and limit",
  """For every set of reports, the MDS buddy check flags exactly those reports whose anomaly differs from the mean of surrounding grid-box anomalies by more than the multiple of the climatological standard deviation prescribed, by the number of neighbouring observations, for the first search radius
  (in space and pentads) that contains any other occupied box (a missing or negative standard deviation counts as 1); with no neighbours the limit is 500, and reports excluded by the deck's filter are never flagged. The verdict does not depend on the order of the reports, and pentads wrap around the year and longitudes around the dateline.""",
  ["inputs", "configurations", "histories"], "any set of reports in space and time, any standard-deviation field and parameter set",
  """Tests place single neighbours at fixed offsets; the neighbourhood, threshold and default rules combine over arbitrary clouds of reports.""",
  ["Extended_IMMA.py"],
  [("Deck.mds_buddy_check", "Extended_IMMA.py"), ("Np_Super_Ob.get_buddy_limits_with_parameters / get_neighbour_anomalies", "Extended_IMMA.py"),
   ("get_threshold_multiplier", "Extended_IMMA.py")])

p("C19", "Bayesian buddy check assigns the posterior its model prescribes",
  """For every set of reports, the Bayesian buddy check gives each report the truncated posterior gross-error probability (a digit 0-9) computed from its anomaly, the mean of its neighbours, and the combined sampling,
  neighbour and measurement uncertainty its model prescribes, using the configured prior, quantisation and limits; reports without neighbours are compared with a mean of 0 and a spread of 500, and reports excluded by the deck's filter get 0. The verdict does not depend on
  report order.""",
  ["inputs", "configurations"], "any set of reports, any standard-deviation fields and parameter set",
  """Tests check the variance terms for one or two neighbours at fixed offsets.""",
  ["Extended_IMMA.py", "qc.py"],
  [("Deck.bayesian_buddy_check", "Extended_IMMA.py"), ("Np_Super_Ob.get_new_buddy_limits", "Extended_IMMA.py"), ("p_gross", "qc.py")])

p("C20", "Gridded super-observations are exact means over neighbours in the globe",
  """Gridding reports conserves them: each 1-degree pentad box's mean and count are those of exactly the reports falling in it, in any insertion order. The neighbours returned for a box are exactly the other occupied boxes within the search radius in
  longitude (widened toward the poles by latitude), latitude and pentad, each once, with longitude and pentad wrapping and no wrapping over the poles.""",
  ["inputs", "histories"], "any set of reports, any box and search radius, incl. dateline, poles and year ends",
  """Tests add a few reports in mid-latitudes.""",
  ["Extended_IMMA.py"],
  [("Np_Super_Ob.add_rep / take_average / get_neighbour_anomalies", "Extended_IMMA.py")])

p("C21", "MDS track check flags the reports its documented rules prescribe",
  """For every voyage, the track check gives every report exactly one 0/1 track flag according to its documented rules: voyages too short to judge, and exempt decks and years, all pass; otherwise a report fails exactly when the previous-position, next-position
  or midpoint estimate test combines with speed, reported-course or reported-speed inconsistency as documented (including the modal-speed based limits), the first and last reports passing by rule. Distances from estimated positions, the modal speed, speed limits and predicted next position are those
  the rules define.""",
  ["inputs", "configurations"], "any voyage: gaps, jumps, missing course/speed, dateline crossings, duplicate times, any parameter set",
  """Tests use straight tracks with one displaced report.""",
  ["Extended_IMMA.py", "track_check.py"],
  [("Voyage.track_check / distr1 / distr2 / midpt / meansp", "Extended_IMMA.py"), ("modesp / set_speed_limits / increment_position / direction_continuity / speed_continuity / check_distance_from_estimate / mds_track_check / mds_full_track_check", "track_check.py")])

p("C22", "IQUAM track check removes a minimal-greedy set explaining excess speeds",
  """The IQUAM track check sets every report's flag to 0 or 1 by repeatedly rejecting the report involved in most too-fast pairs, the earliest on ties (within the configured time and space tolerances and platform speed limit) until no pair of accepted reports violates the limit; a voyage that obeys the limit is never flagged.
  The result is unaffected by a shift of all times, and the number flagged never exceeds the number of violations resolved.""",
  ["inputs", "configurations"], "any voyage and any parameters",
  """Tests use a single fast report in a short track.""",
  ["Extended_IMMA.py"], [("Voyage.iquam_track_check", "Extended_IMMA.py")])

p("C23", "Spike check flags exactly the values out of line with their neighbours",
  """The spike check sets every report's spike flag to 0 or 1 following its documented rule: gradients to the configured number of neighbouring reports beyond the per-distance, per-time and noise limits are counted as violations and reports are rejected greedily from the worst (the earliest on ties) until none remain; a series whose
  gradients stay within limits is never flagged.""",
  ["inputs", "configurations"], "any series of reports and parameters",
  """Tests use a single spike in a constant series.""",
  ["Extended_IMMA.py"], [("Voyage.spike_check", "Extended_IMMA.py")])

p("C24", "Repeated, rounded and saturated value checks count exactly",
  """For every voyage and variable, the repeated-value check flags exactly the reports sharing a value that makes up more than the threshold fraction of more than the minimum count of values, the rounding check flags exactly the whole-number values when more than the threshold fraction of more than the minimum count of values are whole numbers, and the saturation
  check flags exactly the reports in unbroken saturated runs (air temperature equal to dew point) of more than the shortest number of reports lasting at least the minimum time; all other reports get 0. Missing values never count and are never flagged.""",
  ["inputs", "configurations"], "any series incl. missing values, ties, runs at the start or end, any thresholds",
  """Tests use constant series around one threshold.""",
  ["Extended_IMMA.py"],
  [("Voyage.find_repeated_values / find_multiple_rounded_values / find_saturated_runs", "Extended_IMMA.py")])

p("C25", "Drifter aground checks flag exactly the beached tail of a record",
  """The aground checks flag (1) exactly the reports from the start of the final period in which the smoothed drift stays within the location tolerance up to the end of the record (every report when that period covers the whole record) and give 0 everywhere else, following the documented smoothing and window
  rules; records too short to judge pass. Flags are a suffix of the record and do not depend on the longitude convention or on where on the globe the same drift happens in time.""",
  ["inputs", "configurations"], "any drifter record: regular, irregular, gaps, any window parameters",
  """Tests use hand-made records of about a dozen reports in each of a few layouts.""",
  ["trackqc.py", "Extended_IMMA.py"],
  [("aground_check / new_aground_check", "trackqc.py"), ("Voyage.buoy_aground_check / new_buoy_aground_check", "Extended_IMMA.py")])

p("C26", "Drifter speed checks flag exactly the windows faster than the limit",
  """The drifter speed checks flag exactly the reports lying in a window, of the configured duration, whose start-to-end displacement implies a speed above the limit (the newer check first setting aside reports its track check rejects), and no others; short records pass and a record that never exceeds the limit
  is never flagged.""",
  ["inputs", "configurations"], "any drifter record and parameters",
  """Tests use a few hand-made records.""",
  ["trackqc.py", "Extended_IMMA.py"],
  [("speed_check / new_speed_check", "trackqc.py"), ("Voyage.buoy_speed_check / new_buoy_speed_check", "Extended_IMMA.py")])

p("C27", "Drifter SST tail check flags exactly the bad start and end of a record",
  """The SST tail check assesses only night-time, ice-free reports with a usable background, and flags exactly the leading and trailing reports its documented long-window and short-window statistics find bad (start and end flags separately; assessment stops at good data or an unreliable background, and a record that is bad throughout gets no tail flags), flagging reports not assessed with the tail they lie in; everything else, and records
  too short or without enough usable data, gets 0.""",
  ["inputs", "configurations"], "any drifter record with background SST, variances and ice; any parameters",
  """Tests use short synthetic records with one bad tail.""",
  ["trackqc.py", "Extended_IMMA.py"],
  [("sst_tail_check", "trackqc.py"), ("Voyage.buoy_tail_check", "Extended_IMMA.py")])

p("C28", "Drifter bias, noise and short-record checks flag whole records correctly",
  """The bias and noise flags are set for every report of a record exactly when the mean background difference exceeds the bias limit, or its spread exceeds the combined random measurement and background uncertainty, over the usable reports (night, ice-free, matched, background variance within its limit), when there are enough of these to judge; with fewer, the short flag is set exactly when
  enough of them individually are bad and no background in the record is unreliable. Otherwise all three flags are 0.""",
  ["inputs", "configurations"], "any drifter record with background SST, variances and ice; any parameters",
  """Tests use constant-offset records.""",
  ["trackqc.py", "Extended_IMMA.py"],
  [("sst_biased_noisy_check", "trackqc.py"), ("Voyage.buoy_bias_noise_check", "Extended_IMMA.py")])

p("C29", "QC output files contain every report once, faithfully",
  """Writing a deck or voyage produces, in the directory and under the name of its year and month, one line per report of that month, each exactly once and in order, under a header naming the columns, and every value and flag read back from the file equals the report's (missing values as the missing marker).
  Reports of other months are not written and platform identifiers with special characters get safe file names.""",
  ["inputs", "histories"], "any deck or voyage (any identifiers, missing values, several months) and any variable list",
  """No test reads back what is written.""",
  ["Extended_IMMA.py"],
  [("Deck.write_qc / write_output / write_min_output", "Extended_IMMA.py"), ("Voyage.write_qc / write_output / write_tracking_output", "Extended_IMMA.py"),
   ("print_variable_block / print_qc_block / print_report / pvar / safe_filename", "Extended_IMMA.py")])

p("C30", "The monthly QC run outputs every eligible input report exactly once with its QC",
  """For any archive of monthly input files and configuration, a run of the marine QC programs writes for each requested month exactly one output row for each eligible input report of that month (well-formed, with a position, dated in the month, not from an excluded identifier), with the flags that QC of that month together with the adjacent months
  prescribes. Malformed records and missing adjacent months do not stop the run, and input order within the files does not change any report's flags.""",
  ["inputs", "configurations", "fault_sequences"], "archives of generated months with corrupt lines, missing months, excluded identifiers, impossible dates, hours and positions; all programs",
  """No test runs the programs; they need archives, climatologies and configuration.""",
  ["marine_qc.py", "marine_qc_hires.py", "marine_qc_track_only.py", "Extended_IMMA.py"],
  [("main", "marine_qc.py"), ("main", "marine_qc_hires.py"), ("main", "marine_qc_track_only.py")])

p("C31", "Drifter tracking runs cover every populated month once with correct edges",
  """The set of months in which a platform reported is divided, in order, into chunks that together contain every reported month exactly once, never contain as many empty months in a row as the configured gap and are separated by at least that many. The tracking
  driver issues for each platform runs that assess every month of each chunk exactly once with the right edge cases, and each run applies the tracking checks to exactly that platform's reports and writes their flags to the right months.""",
  ["inputs", "configurations", "histories"], "all month patterns and gaps, any set of platforms and periods",
  """Tests cover three or four patterns of months and never the driver.""",
  ["YMCounter.py", "Tracking_QC_wrapper.py", "tracking_qc.py"],
  [("YMCounter.get_chunks / yield_start_and_end_dates", "YMCounter.py"), ("main", "Tracking_QC_wrapper.py"), ("main", "tracking_qc.py")])

p("C32", "File and directory naming finds exactly the file for the requested date",
  """For every year, month and day, template expansion puts zero-padded date parts in place of the placeholders and leaves the rest alone; archive and background lookups return the first existing candidate for that date (unpacking a compressed one to a usable file) and none if there is none; ICOADS release and year ranges select the documented
  file name. Directory creation makes exactly the requested tree and is harmless when repeated, and the bad-identifier list returns each listed identifier.""",
  ["inputs", "configurations", "fault_sequences"], "all dates, template lists, presence/absence patterns of files",
  """Most of these tests need directories of the authors' system and fail or are skipped here.""",
  ["BackgroundField.py", "Tracking_QC_wrapper.py", "tracking_qc.py"],
  [("process_string / make_filename / get_background_filename", "BackgroundField.py"), ("icoads_filename / icoads_filename_from_stub", "BackgroundField.py"),
   ("safe_make_dir* / process_bad_id_file", "BackgroundField.py")])

p("C33", "Robust averages depend only on the values, not their order",
  """Winsorised mean, trimmed mean and standard deviation and missing-aware mean equal their definitions for every list length and trim, lie between the smallest and largest value, do not depend on the order of the values, shift and scale with the data, and are unmoved by changes to values that are trimmed
  away.""",
  ["inputs"], "all lists of 1..60 finite values with ties and outliers, all trims",
  """Tests check a few lists; off-by-one errors in cut positions show only for some lengths.""",
  ["qc.py", "trackqc.py"],
  [("winsorised_mean / trimmed_mean / missing_mean", "qc.py"), ("trim_mean / trim_std", "trackqc.py")])

p("C34", "Checks only write their own flags",
  """Running any quality check on a report, voyage or deck leaves every observed value, position, time and climatology unchanged, leaves every flag it is not documented to set unchanged, keeps all reports, and writes only single-digit flags; running the same check again on the same data gives the same flags.""",
  ["inputs", "histories"], "any data and any sequence of checks in any order",
  """Tests look only at the flag under test on fresh data, never at side effects or repetition.""",
  ["Extended_IMMA.py", "trackqc.py", "track_check.py", "qc.py"],
  [("Voyage.*check / Deck.*_buddy_check / MarineReportQC.perform_base_*", "Extended_IMMA.py"), ("*_check", "trackqc.py")])

p("C35", "Inputs outside a check's documented domain are refused, never judged",
  """A drifter check given a record it cannot judge (a missing position or time, an impossible latitude, month, day or hour, reports out of time order or without time differences, a missing match, an ice fraction outside 0-1, or a background
  or variance outside its valid range where it would be used) or parameters that mean nothing stops with an error before changing any report's flags, and accepts values at the ends of the ranges; an empty or non-drifter
  voyage is left alone. Likewise the calendar, grid, interpolation, probability, value-check, flag, voyage, climatology and file-name routines refuse arguments outside their documented domains and accept those at its ends.""",
  ["inputs", "fault_sequences"], "every drifter check with any one fault at any place in a record; every documented argument range at and beyond its ends",
  """Tests try one bad value per check at one place; a guard that only looks at the first report, or has the wrong end point, lets nonsense through as a confident verdict.""",
  ["trackqc.py", "qc.py", "Extended_IMMA.py", "spherical_geometry.py", "Climatology.py", "BackgroundField.py"],
  [("input validation of the six drifter checks", "trackqc.py"), ("Voyage.buoy_*_check wrappers", "Extended_IMMA.py"), ("argument assertions", "qc.py")])
