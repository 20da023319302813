#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "crates/qlab-time/src/"
C = "third-parties/calendar/src/"
M = "crates/qlab-math/src/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

I, H, CFG = "inputs", "histories", "configurations"

p("C01", "Dates follow the proleptic Gregorian calendar exactly",
  "A year/month/day triple is accepted exactly when it is a real date of the proleptic Gregorian calendar within the supported year range (-262143..262142), and an accepted date reports back that year, month, day and leap-year status. Its serial number is the day count with 0001-01-01 as day 1, so ordering, equality, subtraction, successor, predecessor and ISO printing all agree with that count, and only the first and last representable dates lack a neighbour.",
  [I], "every (year, month, day) triple of machine integers, and every pair of dates",
  "Existing tests construct a few dozen dates of the 2020s; leap rules, BCE years and the ends of the range are never compared with an independent calendar.",
  [T + "date.rs"], [("from_ymd, year/month/day, leap_year, serial_date", T + "date.rs"), ("succ_opt/pred_opt, Sub, Display, Ord", T + "date.rs")],
  ["return values of Date's public methods"])
p("C02", "Adding and subtracting days moves the serial number by exactly that amount",
  "Adding (subtracting) n days gives the date whose serial number is larger (smaller) by n, for every 64-bit n, and gives no date exactly when the result leaves the supported range; nothing wraps or panics. Consequently additions compose, subtraction undoes addition, and the same holds along any sequence of day steps.",
  [I, H], "every start date, every unsigned 64-bit amount, and every sequence of additions, subtractions and neighbour steps",
  "Tests add a handful of small amounts; overflow amounts, month/year/leap crossings and long sequences are not sampled.",
  [T + "date.rs", T + "period/days.rs"], [("checked_add_days / checked_sub_days", T + "date.rs"), ("Period for Days", T + "period/days.rs")],
  ["returned dates"])
p("C03", "Month and year steps keep the day of month, clamped to the month's length",
  "Adding or subtracting n months lands in the month that is n months away on min(day, length of that month), and adding n years (possibly negative) keeps month and day except that 29 February becomes 28 February in a common year. The result is absent exactly when it would leave the supported range (or, for months, when n exceeds 2147483647), and never panics.",
  [I, H], "every date and every amount of the argument type, alone and in sequences",
  "Tests check about ten month and year steps; clamping at every month length, leap years, century years and overflow amounts are unsettled.",
  [T + "date.rs", T + "period/months.rs", T + "period/years.rs"], [("checked_add_months / checked_sub_months / checked_add_years", T + "date.rs")],
  ["returned dates"])
p("C04", "Weekend roll moves Saturdays and Sundays to the next Monday and nothing else",
  "Rolling a Saturday or Sunday gives the immediately following Monday (even across a month or year end), and rolling any other day returns it unchanged; the result is never a weekend day and rolling twice equals rolling once. It is absent only when that Monday is beyond the last representable date.",
  [I], "every representable date",
  "Tests check a few dates; month-end, year-end and range-end weekends are not covered.",
  [T + "date.rs"], [("weekend_roll", T + "date.rs")], ["returned date", "bond payment dates"])
p("C05", "Business-day rolling obeys its convention for every calendar and period",
  "Rolling a date by a period first adds the period; Unadjusted returns that date, Following (Preceding) returns the first business day on or after (on or before) it, and Modified Following (Modified Preceding) does the same unless that leaves the month of the unrolled date, in which case it returns the first business day in the opposite direction. A business day is never moved, the convention is decided by the given calendar alone (built-in, joint or user-defined, which agree with their business-day answers for the underlying date), and a result beyond the supported range is reported as absent.",
  [I, CFG], "every start date, period (days, months, years), rolling convention and calendar, including closures of several weeks across month ends",
  "Tests cover one calendar and a couple of dates; closures spanning month and year ends under each convention are not reached.",
  [T + "date.rs", T + "date_rolling.rs", T + "calendar.rs", T + "period.rs"], [("checked_roll", T + "date.rs"), ("blanket Calendar impl", T + "calendar.rs")],
  ["returned date"])
p("C06", "Act/360 and Act/365 fractions are the signed day difference over the basis",
  "The Act/360 (Act/365) fraction between two dates is the exact number of days from the first to the second divided by 360 (365), in the requested float type, up to a few units in the last place. It is therefore negative for reversed dates, zero for equal dates, antisymmetric and additive, whatever the leap years in between.",
  [I], "every ordered or reversed pair of dates, in f32 and f64",
  "Tests check a few pairs in f64.",
  [T + "day_count/act_360.rs", T + "day_count/act_365.rs", T + "day_count.rs"], [("calculate_day_count_fraction", T + "day_count/act_360.rs"), ("calculate_day_count_fraction", T + "day_count/act_365.rs")],
  ["returned fraction"])
p("C07", "30/360 counts every month as thirty days and rejects reversed dates",
  "For two dates in order, the 30/360 fraction is (360*dY + 30*dM + min(d2,30) - min(d1,30))/360, in the requested float type, including when the month or day number decreases; equal dates give zero. When the first date is after the second the result is an error, never a number or a panic.",
  [I], "every pair of dates, in f32 and f64",
  "Tests check a few pairs; decreasing month numbers, day 31 on either side and long spans are not sampled.",
  [T + "day_count/thirty_360.rs"], [("calculate_day_count_fraction", T + "day_count/thirty_360.rs")], ["returned fraction or error"])
p("C08", "Easter Monday and Orthodox Easter Monday are right for every year 1901-2199",
  "For every year from 1901 to 2199 each calendar reports the day of the year of Western Easter Monday given by the Gregorian computus and of Orthodox Easter Monday given by the Julian computus converted to the Gregorian calendar. Both are always Mondays, and the answer depends on the year alone.",
  [I, H], "every year of the table range on every calendar, in any order of queries",
  "Tests touch only the years around 2023 through holidays; a wrong entry elsewhere shifts up to six holidays of some 30 markets unnoticed.",
  [C + "lib.rs"], [("EASTER_MONDAY / ORTHODOX_EASTER_MONDAY, easter_monday, orthodox_easter_monday", C + "lib.rs")],
  ["Calendar::easter_monday", "Calendar::orthodox_easter_monday"])
p("C09", "Every day is either a business day or a holiday, and weekends are closed",
  "On every calendar each date is exactly one of business day and holiday, the answer depends only on the date and the market (not on earlier queries or the instance), and the date breakdown it works with is the true day, weekday, month, year and day of year. The weekend is Saturday and Sunday (Friday and Saturday in Israel), and no weekend day is a business day except the published working Saturdays and Sundays of the Moscow Exchange in 2012, 2016 and 2018.",
  [I, H, CFG], "every calendar and market variant, including user-defined calendars, and every date 1901-2199",
  "Tests iterate over single years of each calendar and never query is_holiday or is_weekend systematically.",
  [C + "lib.rs", C + "israel.rs", C + "russia.rs"], [("is_holiday, is_weekend, naive_date_to_dkmy", C + "lib.rs"), ("is_working_weekend", C + "russia.rs"), ("is_weekend", C + "israel.rs")],
  ["Calendar trait methods"])
p("C10", "Month ends: last calendar day, and last business day on or before it",
  "The last day of the month of a date is that month's final calendar date in every year, leap years included. The end of month is the latest business day of the calendar that is not after that last day, however long the closure before the month end is, so it is the same for all dates of one month.",
  [I, CFG], "every date and every calendar, including user-defined ones with long closures",
  "Tests check these operations for almost no calendar and no closed month end.",
  [C + "lib.rs"], [("last_day_of_month, end_of_month", C + "lib.rs")], ["returned dates"])
p("C11", "Business days between two dates are counted day by day with both end flags",
  "For from <= to the count is the number of business days in [from, to], where the first day is counted only if include_first (default true) and the last only if include_last (default false); a single common day needs both. Swapped arguments give the negated count with the same flags, and default counts add up when an interval is split.",
  [I, CFG], "every calendar, date pair in either order, and combination of flags",
  "Tests check a few intervals of one calendar, mostly with default flags.",
  [C + "lib.rs"], [("business_days_between", C + "lib.rs")], ["returned count"])
p("C12", "A joint calendar is open exactly when both of its calendars are open",
  "For any two calendars, their joint calendar has a business day exactly on the dates that are business days of both, whatever their order, and joint calendars can be nested. Every derived operation (holiday test, end of month, counting business days) works on these joint business days.",
  [I, CFG], "every pair or nesting of built-in and user-defined calendars and every date",
  "One test joins two calendars over one year.",
  [C + "jointcalendar.rs", C + "lib.rs"], [("JointCalendar::is_business_day", C + "jointcalendar.rs")], ["JointCalendar as a Calendar"])

CAL = "a day is a business day exactly when it is not a weekend day and not one of the market's holidays"
WHYCAL = "The unit tests compare at most a few single years (mostly 2023) of some variants; each rule has year ranges, weekday substitutions and one-off closures that only show in other years."
MECH = lambda *f: [("is_business_day", C + x) for x in f]
def cal(id, title, statement, files):
    p(id, title, statement, [I, H, CFG],
      "every market variant (including the default one), every date from 1901-01-01 to 2199-12-31, in any order of queries",
      WHYCAL, [C + f for f in files], MECH(*files), ["Calendar::is_business_day / is_holiday of each variant"])

cal("C13", "TARGET, Germany, France, Italy, Austria close exactly on their holidays",
    "For TARGET, the five German markets, and the settlement and exchange markets of France, Italy and Austria, " + CAL + ": the fixed dates, the days tied to Easter, and the closures limited to certain years listed for it. A calendar without an explicit market behaves as settlement, and as the Frankfurt exchange for Germany.",
    ["target.rs", "germany.rs", "france.rs", "italy.rs", "austria.rs"])
cal("C14", "UK, Switzerland and the Nordic markets close exactly on their holidays",
    "For the United Kingdom (settlement, exchange, metals), Switzerland, Denmark, Finland, Iceland, Norway and Sweden, " + CAL + ": fixed dates, Easter-related days, n-th-weekday rules, weekend substitutions (UK New Year, Christmas, Boxing Day), one-off royal and anniversary days, and rules that start or end in a given year.",
    ["unitedkingdom.rs", "switzerland.rs", "denmark.rs", "finland.rs", "iceland.rs", "norway.rs", "sweden.rs"])
cal("C15", "Central and Eastern European markets close exactly on their holidays",
    "For the Czech Republic, Hungary, Poland, Romania, Slovakia, Ukraine and Russia (settlement, exchange), " + CAL + "; Romania and Ukraine follow Orthodox Easter and Russian and Ukrainian holidays move to Monday where listed. On the Moscow Exchange the published working weekends are business days.",
    ["czechrepublic.rs", "hungary.rs", "poland.rs", "romania.rs", "slovakia.rs", "ukraine.rs", "russia.rs"])
cal("C16", "Each US market closes exactly on its federal, exchange and one-off holidays",
    "For each US market (settlement, Libor impact, NYSE, government bond, SOFR, NERC, Federal Reserve; settlement by default), " + CAL + ": with each market's own observance of Saturday and Sunday holidays, the years in which a holiday was introduced or moved, election days, and historical special closings.",
    ["unitedstates.rs"])
cal("C17", "Canada, Mexico, Brazil, Chile, Argentina close exactly on their holidays",
    "For Canada (settlement, TSX), Mexico, Brazil (settlement, exchange), Chile and Argentina, " + CAL + ": fixed and Easter-related days, Monday rules, substitutions, year-limited rules, and the last weekday of the year on the Brazilian exchange.",
    ["canada.rs", "mexico.rs", "brazil.rs", "chile.rs", "argentina.rs"])
cal("C18", "Japan, Australia and New Zealand close exactly on their holidays",
    "For Japan, Australia (settlement, ASX) and New Zealand, " + CAL + ": including the equinox days by the published approximation, Happy Monday and Golden/Silver Week rules, the 2020 and 2021 moves, imperial one-off days, Monday/Tuesday substitutions, and the official Matariki dates.",
    ["japan.rs", "australia.rs", "newzealand.rs"])
cal("C19", "South Africa, Botswana, Israel and Turkey close exactly on their holidays",
    "For South Africa, Botswana, Israel (Friday/Saturday weekend) and Turkey, " + CAL + ": Sunday substitutions and election days, the Hebrew-calendar holidays listed for 2013-2044, and the Ramadan and Kurban holidays listed per year.",
    ["southafrica.rs", "botswana.rs", "israel.rs", "turkey.rs"])
cal("C20", "China, Hong Kong, Taiwan and South Korea close exactly on their holidays",
    "For mainland China, Hong Kong, Taiwan and South Korea, " + CAL + ": recurring national days with their year limits and substitute days, and the lunar, solar-term and ad hoc closures listed per year.",
    ["china.rs", "hongkong.rs", "taiwan.rs", "southkorea.rs"])
cal("C21", "India, Indonesia, Singapore and Thailand close exactly on their holidays",
    "For India, Indonesia, Singapore and Thailand, " + CAL + ": recurring national days with substitute Mondays where listed, Easter-related days, and the lunar, Islamic, Hindu, Buddhist and ad hoc closures listed per year.",
    ["india.rs", "indonesia.rs", "singapore.rs", "thailand.rs"])

IM = M + "interpolation/"
p("C22", "Every interpolator passes through all of its knots and is continuous there",
  "Evaluating a fitted linear, natural cubic, Catmull-Rom or Hermite interpolator at a knot returns that knot's value up to rounding, for every knot including the first and the last. Approaching a knot from either side converges to the same value.",
  [I], "every set of strictly increasing knots, any spacing and values, in f32 and f64",
  "Tests evaluate two or three fixed data sets at a few points, mostly evenly spaced.",
  [IM + "linear.rs", IM + "spline/natural_cubic.rs", IM + "spline/catmull_rom.rs", IM + "spline/hermite.rs", M + "linear_algebra/tridiagonal_matrix.rs"],
  [("try_value", IM + "linear.rs"), ("try_fit / try_value", IM + "spline/natural_cubic.rs"), ("try_fit / try_value", IM + "spline/catmull_rom.rs"), ("try_new / try_value", IM + "spline/hermite.rs")],
  ["try_value"])
p("C23", "Linear interpolation is the chord between neighbouring knots",
  "Between two neighbouring knots the linear interpolator returns the point on the straight line joining them, up to rounding; it never leaves the interval spanned by the two neighbouring values and reproduces affine data exactly (up to rounding). Scaling or shifting the values scales or shifts the result.",
  [I], "every strictly increasing knot set of at least two points and every abscissa in range, in f32 and f64",
  "Tests use one short data set.",
  [IM + "linear.rs", M + "interpolation.rs"], [("try_value, find_index_at_left_boundary", IM + "linear.rs")], ["Linear::try_value"])
p("C24", "The natural cubic spline is the unique C2 interpolant with natural ends",
  "Between knots the natural cubic interpolator equals the piecewise cubic that passes through all knots, has continuous first and second derivatives, and zero second derivative at both ends, up to rounding. It therefore reproduces affine data and is linear in the knot values.",
  [I], "every strictly increasing knot set of at least three points, any number of knots and spacing",
  "Tests evaluate fixed points of small data sets; nothing checks derivatives, uneven spacing or many knots.",
  [IM + "spline/natural_cubic.rs", M + "linear_algebra/tridiagonal_matrix.rs"], [("try_fit, tridiagonal solve", IM + "spline/natural_cubic.rs"), ("solve", M + "linear_algebra/tridiagonal_matrix.rs")],
  ["NaturalCubic::try_value"])
p("C25", "The Catmull-Rom spline uses finite-difference slopes at every knot",
  "Between knots the Catmull-Rom interpolator equals the cubic Hermite segment whose end slopes are (y[i+1]-y[i-1])/(x[i+1]-x[i-1]) at interior knots and the slope of the end chord at the first and last knot, up to rounding. It therefore reproduces affine data, is linear in the knot values, depends only on the four surrounding knots, and has a continuous first derivative.",
  [I], "every strictly increasing knot set of at least three points and every abscissa in range",
  "Tests evaluate one evenly spaced data set.",
  [IM + "spline/catmull_rom.rs"], [("try_fit, try_value", IM + "spline/catmull_rom.rs")], ["CatmullRom::try_value"])
p("C26", "The Hermite spline is the cubic with the given values and slopes at its knots",
  "Between two neighbouring knots the Hermite interpolator equals the unique cubic with the given values and derivatives at both, up to rounding; so it reproduces any cubic polynomial sampled with its derivatives, and its slope at each knot is the given one. A segment depends only on its own two knots.",
  [I], "every strictly increasing set of at least three (x, y, slope) triples and every abscissa in range",
  "Tests evaluate a few points of one data set.",
  [IM + "spline/hermite.rs"], [("try_new, try_value", IM + "spline/hermite.rs")], ["HermiteSpline::try_value"])
p("C27", "Interpolators reject bad knots and out-of-range points with the right error",
  "Fitting reports insufficient points (with the number supplied) below two knots for linear and three for the others, and a point-order error when abscissae are not strictly increasing (equal, decreasing or NaN). Evaluating a fitted interpolator succeeds exactly for x within [first, last] knot, reports out of lower or upper bound with the offending x outside it, and an unfitted one reports insufficient points; no input panics.",
  [I], "every list of points (any length, order, NaN, infinities) and every abscissa",
  "Tests check a few error cases of single interpolators.",
  [M + "interpolation.rs", IM + "linear.rs", IM + "spline/natural_cubic.rs", IM + "spline/catmull_rom.rs", IM + "spline/hermite.rs", "crates/qlab-error/src/lib.rs"],
  [("try_fit / try_new validation", IM + "linear.rs"), ("find_index_at_left_boundary bounds", M + "interpolation.rs")], ["Result of try_fit, try_new and try_value"])
p("C28", "Refitting an interpolator leaves no trace of the previous fit",
  "Fitting an interpolator that was fitted before gives the same results as fitting a fresh one with the same points, whatever the lengths and values of the two point sets and how often it was evaluated in between. Evaluation never changes later results.",
  [H], "every sequence of fits and evaluations on one interpolator",
  "Tests fit each interpolator once.",
  [IM + "linear.rs", IM + "spline/natural_cubic.rs", IM + "spline/catmull_rom.rs"], [("try_fit replaces the stored coefficients", IM + "spline/natural_cubic.rs")], ["try_value after successive try_fit"])
Y = "crates/qlab-termstructure/src/yield_curve.rs"
p("C29", "Discount factors are exponentials of the interpolated yields",
  "With t the day-count time from the settlement date and y(t) the interpolated yield at t, the discount factor between two curve dates d1 < d2 is exp(t1*y(t1) - t2*y(t2)), and exp(-t2*y(t2)) when d1 is the settlement date, up to rounding. This holds for every interpolation scheme, including user-defined ones, every day-count convention and float type, and the factor is positive unless the exponential underflows.",
  [I, CFG], "every settlement date, set of pillars and yields, pair of dates on the curve, interpolator, day count and float type",
  "Tests evaluate two curves at a few dates.",
  [Y], [("YieldCurve::discount_factor", Y)], ["discount_factor"])
p("C30", "Discount factors compose along the curve and read back the pillar yields",
  "For settlement <= d1 < d2 < d3 on the curve, the factor from d1 to d2 times the factor from d2 to d3 equals the factor from d1 to d3 up to rounding. From the settlement date to a pillar the factor is exp(-t*y) of the yield supplied for it, a flat curve gives exp(-y*(t2-t1)), and querying the curve never changes later answers.",
  [I, H, CFG], "every curve, chain of dates and sequence of queries",
  "Tests never compare factors with each other.",
  [Y], [("YieldCurve::new, discount_factor", Y)], ["discount_factor"])
p("C31", "Curves reject inconsistent input and dates outside the curve with errors",
  "Building a curve fails with an error when numbers of dates and yields differ, when there are too few pillars, when the pillars' day-count times are not strictly increasing, or when the day count rejects a pillar before settlement. A discount factor is an error when the dates are reversed or precede settlement, and when the later date, or an earlier date other than the settlement date, lies outside the pillar range (equal dates included); everything else succeeds and nothing panics.",
  [I, CFG], "every combination of settlement date, pillar list, yield list and query dates",
  "Tests check one mismatch and one reversed pair.",
  [Y, IM + "linear.rs", T + "day_count/thirty_360.rs"], [("YieldCurve::new validation, discount_factor checks", Y)], ["Result of YieldCurve::new and discount_factor"])
B = "crates/qlab-instrument/src/bond.rs"
p("C32", "Coupons fall due every six months and are paid on the next weekday",
  "A bond's coupon k is due 6k months after the first coupon date, keeping its day of month clamped to the month's length, up to and including the penultimate coupon date; each is paid on its due date or, on a weekend, on the following Monday, and the final flow is paid at maturity. Every regular coupon amounts to face value times rate divided by the payment frequency, the face value is repaid only with the final flow, and a bond keeps the identifier it was created with.",
  [I], "every schedule of issue, first coupon, penultimate coupon and maturity dates, rate and face value, in f32 and f64",
  "One end-to-end test prices a single bond.",
  [B, T + "date.rs", T + "frequency.rs"], [("Bond::new", B), ("weekend_roll", T + "date.rs")], ["discounted_value as a function of settlement date and curve"])
p("C33", "Irregular first and last coupons are prorated by their actual length",
  "A first period shorter than six months pays the regular coupon times its share of the regular period in days, a longer one pays a full coupon plus the excess days' share of the preceding six-month period; the last period is treated likewise, with the excess measured in the following six-month period. The two adjustments are independent, also when the first coupon date is the penultimate one, and a regular period pays exactly the regular coupon.",
  [I], "every bond with a short, regular or long first and last period",
  "No test has a long period or checks the amount of an irregular coupon on its own.",
  [B], [("Bond::new first and last coupon", B)], ["discounted_value"])
p("C34", "A bond's value is the sum of its remaining flows, each discounted once",
  "The value at a settlement date is the sum over flows due strictly after settlement of amount times the discount factor from settlement to the payment date, so it jumps by exactly the coupon when settlement reaches a due date and is zero once all flows are due. It is linear in the flows (doubling the face value doubles it), pricing does not change the bond or the curve, and any discounting error is returned instead of a partial sum.",
  [I, H], "every bond, curve and settlement date, including settlement on due dates, between due and payment dates and after maturity",
  "One test prices one bond on one date.",
  [B, Y], [("Bond::discounted_value", B)], ["discounted_value"])
p("C35", "Pricing a bond end to end agrees with an independent calculation",
  "For every combination of interpolation scheme, day-count convention and float type, building a curve from dated yields and pricing a bond on it gives the sum of independently computed flows times independently computed discount factors up to rounding, or an error exactly when some needed factor is unavailable. The result does not depend on the identifier or on other bonds and curves in use.",
  [I, CFG], "every bond and curve, interpolator, day count and float type",
  "The only end-to-end test uses one bond, one curve and one combination.",
  [B, Y, M + "interpolation.rs", T + "date.rs", "crates/qlab/src/lib.rs"], [("Bond::new and discounted_value over YieldCurve", B)], ["discounted_value"])

p("C36", "Errors keep their kind from where they arise to the caller",
  "An error of a curve or a bond price tells its cause by its kind: InvalidInput when numbers of dates and yields differ, a query's dates are reversed or precede settlement, or 30/360 gets reversed dates; InterpolationError when the interpolation scheme, built-in or user-defined, rejects the points or a time for whatever reason; CastNumberError when the number type cannot represent a number of days or the length of the year; and whatever error a user-defined day count returns, unchanged. Where several causes apply, any of them may be reported. No cause is swallowed: neither a curve, a discount factor nor a price is returned when one exists.",
  [I, CFG], "every curve, query and bond with at least one cause for an error, every interpolation scheme, day count and number type, user-defined ones included",
  "Tests check that two calls fail, not how, and never use schemes, day counts or number types of their own that fail.",
  [Y, B, "crates/qlab-error/src/lib.rs", T + "day_count/thirty_360.rs", T + "day_count/act_360.rs", T + "day_count/act_365.rs"],
  [("YieldCurve::new, discount_factor", Y), ("Bond::discounted_value", B), ("From<InterpolationError> for QLabError", "crates/qlab-error/src/lib.rs")],
  ["the error returned by YieldCurve::new, discount_factor, discounted_value and calculate_day_count_fraction"])
p("C37", "Threads working at the same time get the answers that each gets alone",
  "Calendars, dates, interpolators, curves and bonds keep no state that one evaluation could leave for another: when several threads evaluate the same or different objects at the same time, in whatever interleaving, every result is bit for bit the one that the same evaluation gives alone, before as well as after, and also when some of the evaluations end in an error or in a panic of user-defined code.",
  ["schedules", H, CFG], "every set of evaluations on new or shared objects, every number of threads and every interleaving",
  "All tests are single-threaded and evaluate an object once or twice.",
  [C + "lib.rs", T + "date.rs", M + "interpolation.rs", Y, B],
  [("Calendar trait and its implementations", C + "lib.rs"), ("Interpolator::try_fit, try_value", M + "interpolation.rs"), ("YieldCurve::discount_factor", Y), ("Bond::discounted_value", B)],
  ["results of the public methods called from several threads"])

p("C38", "Dates and errors print what they stand for",
  "Every date prints as its ISO 8601 calendar date (years outside 0 to 9999 with a sign), so that the text reads back as the same date and different dates print differently, to a failing writer too. The text of an error contains what caused it: the out-of-range argument and which bound it violates, the number of points that was too few, the text of a cast or input error, the two dates of a refused query and, when it precedes settlement, the settlement date, and both dates of a reversed 30/360 pair. Errors of different kinds print differently, and wrapping an error as a library error does not change its text.",
  [I], "every date, every error value and every refused call",
  "No test looks at a text.",
  [T + "date.rs", "crates/qlab-error/src/lib.rs", Y, T + "day_count/thirty_360.rs"],
  [("Display for Date", T + "date.rs"), ("Display of QLabError, ComputeError, InterpolationError and ErrString", "crates/qlab-error/src/lib.rs")],
  ["to_string() of dates and errors"])

p("C39", "A bond exists for every schedule whose dates exist, and for no other",
  "With issue date < first coupon date <= penultimate coupon date < maturity, a bond is created exactly when every date its flows depend on is in the supported range: the weekdays its coupons are paid on, the regular first and last periods and, where the first or last period is longer, the six months beyond it. Rate, face value (zero, negative, infinite or NaN alike) and identifier play no part, creation never panics, and the bond keeps its identifier and all of its flows. With the first coupon date after the penultimate one there is no bond, or one whose only flow is the final one.",
  [I], "every schedule in the supported range and its ends, every rate, face value and identifier, in f32 and f64",
  "Tests create two bonds, both in the 21st century.",
  [B, T + "date.rs"], [("Bond::new, first_cash_flow, final_cash_flow", B)], ["Option returned by Bond::new, bond_id, discounted_value"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
