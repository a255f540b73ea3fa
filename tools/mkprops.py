#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

DT="src/datetime/"
p("C01","Dates are one consistent bijection of serials, fields and weekdays",
  "Over the whole supported range (1900-01-01 to 2199-12-31) every Gregorian day corresponds to exactly one serial number, starting at 2 for 1900-01-01 and growing by one per day, and its year, month, day of month, day of year, weekday and printed form are the ones of the Gregorian calendar however the date was built. Equality, ordering and hashing of dates agree with chronological order. A serial number outside the range, or a day/month/year that does not exist or lies outside it, is rejected and never yields a date.",
  ["inputs"],"All 109,573 dates of the range, every (day 0..33, month, year 1890..2210) triple, every serial number in a margin around the range.",
  "The unit tests build a few dozen dates and sample one pass over the serials; table entries (300 leap flags, 300 year offsets, month tables) are otherwise unvisited, and rejection is not tested.",
  [DT+"date.rs",DT+"months.rs",DT+"weekday.rs"],
  [("Date::new / Date::from_serial","src/datetime/date.rs"),("YEAR_OFFSET, YEAR_IS_LEAP, MONTH_*_OFFSET tables","src/datetime/date.rs"),("field accessors, weekday","src/datetime/date.rs")],
  ["Date::{new,from_serial,serial_number,year,month,day_of_month,day_of_year,weekday}","Debug/Hash/Ord of Date"],
  [("date_time + serial_number","redundant pair that must stay in step","src/datetime/date.rs struct Date")])
p("C02","Adding and subtracting days and periods is exact and clamps to month end",
  "Adding or subtracting n days or weeks moves a date by exactly n (7n) days, and adding or subtracting months or years keeps the day of month, reduced to the last day of the target month when that month is shorter; the difference of two dates is the exact number of days between them. The by-value, by-reference and in-place forms of an operation give the same date with all its fields consistent. An operation whose result would leave the supported range is rejected by every form instead of producing a date.",
  ["inputs","histories"],"Every start date of the range x day/week/month/year offsets of both signs (including ones that leave the range), all operator forms, and every in-place operation sequence up to a depth.",
  "Tests add a handful of periods to a handful of dates; in-place forms, negative months over year boundaries and range overflow are unvisited.",
  [DT+"date.rs"],
  [("Add/Sub/AddAssign/SubAssign impls","src/datetime/date.rs"),("Date::advance","src/datetime/date.rs")],
  ["operators +,-,+=,-= on Date with i32 and Period","Date - Date","Date::days_between"])
p("C03","Month ends, leap years and nth weekdays follow the Gregorian calendar",
  "For every date, its end of month is the last day of the same month and a date is reported as end of month exactly when it equals it; a year is a leap year exactly by the Gregorian rule (1900 and 2100 are not, 2000 is). The n-th given weekday of a month is the n-th date of that month falling on that weekday, and a non-existent one (zeroth, sixth, or a fifth that the month does not have) is rejected.",
  ["inputs"],"All dates, all 300 years, all (n 0..7, weekday, month, year) combinations.",
  "Tests look at single months; the 3,600 months x 7 weekdays x 5 positions are not covered.",
  [DT+"date.rs"],[("end_of_month, is_end_of_month, is_leap, nth_weekday","src/datetime/date.rs")],
  ["Date::{end_of_month,is_end_of_month,is_leap,nth_weekday}"])
p("C04","Period arithmetic is exact and agrees with moving dates",
  "Adding, subtracting, negating, multiplying and dividing periods of days, weeks, months and years gives the period whose length is the exact result in a unit both operands convert to, so that moving a date by p and by q in steps of whole days or weeks equals moving it by p+q; sums mixing days or weeks with months or years, and divisions that are not exact, are rejected rather than approximated. Normalising a period, or converting it to years, months, weeks or days, never changes the amount of time it denotes, and periods of equal amounts normalise to the same representation. The frequency of a period and the period of a frequency are mutually inverse wherever both are defined.",
  ["inputs","histories"],"All pairs of periods with lengths in a symmetric window and units D/W/M/Y, all integer factors/divisors in a window, every frequency, and all operation sequences up to a depth.",
  "Tests check a dozen sums and normalisations; unit promotion, negative lengths and rejection paths are sampled once.",
  [DT+"period.rs",DT+"frequency.rs"],
  [("AddAssign/SubAssign/Neg/Mul/Div","src/datetime/period.rs"),("normalise, years/months/weeks/days, frequency, From<Frequency>","src/datetime/period.rs")],
  ["Period operators, normalise(d), frequency, years/months/weeks/days"])
p("C05","Period comparison, equality and hashing are coherent",
  "One period compares less than another exactly when it is shorter for certain (every number of days the first can denote, counting 28 to 31 per month and 365 to 366 per year, is smaller than every number the second can; units that convert exactly compare exactly), equal exactly when both denote the same amount of time in convertible units or are both empty, and periods of uncertain relation (1 month against 30 days) compare neither less nor greater nor equal. The relation is antisymmetric and free of cycles, equality is transitive, for both signs of length and zero, and equal periods hash alike.",
  ["inputs"],"All pairs (and triples in a smaller window) of periods with units D/W/M/Y and positive, zero and negative lengths.",
  "Tests compare a few positive periods; zero and negative lengths, undecidable pairs and the Hash/Eq contract are not exercised.",
  [DT+"period.rs"],[("PartialOrd, PartialEq, Hash, days_min_max","src/datetime/period.rs")],
  ["<,>,<=,>=,==,partial_cmp, Hash of Period"])
H=DT+"holidays/"
p("C06","Every market calendar has exactly its documented holidays",
  "For every date of the supported range each market calendar (TARGET; UK settlement, exchange and metals; US settlement, Libor impact, NYSE, government bond, NERC and Federal Reserve; Italy settlement and exchange; Brazil settlement and exchange; Japan; Switzerland; weekends only; null) reports as holidays exactly its weekends plus the fixed-date, observed-shift, nth-weekday, Easter-relative and one-off closings documented for that market and year range. Easter dates (western and orthodox) are those of the computus, and each calendar reports its own market's name.",
  ["inputs"],"All 18 calendars x all 109,573 dates, all 300 years for both Easter tables, all weekdays.",
  "Tests compare the holiday lists of one or a few years per calendar; most years, the 1900s and 2100s, and US settlement/Libor weekends are untested.",
  [H+x for x in ("target.rs","unitedkingdom.rs","unitedstates.rs","italy.rs","brazil.rs","japan.rs","switzerland.rs","weekendsonly.rs","nilholiday.rs")]+[DT+"holiday.rs",DT+"calendar.rs",DT+"weekend.rs"],
  [("per-market is_business_day","src/datetime/holidays/*.rs"),("EASTER_MONDAYS / ORTHODOX_EASTER_MONDAYS tables (two copies)","src/datetime/holiday.rs, src/datetime/calendar.rs"),("Holiday dispatch","src/datetime/holiday.rs")],
  ["Calendar::{is_holiday,is_weekend,holiday_list,business_day_list,name}","easter_monday, easter_monday_orthodox"])
p("C07","Added and removed holidays take effect in every calendar query",
  "After any sequence of adding holidays, removing holidays and resetting, a date is a holiday exactly when the last operation on it since the last reset added it, or, if none did, when the market rules say so; adding a date that is already a holiday or removing one that already is a business day changes nothing. Every query of the calendar (holiday test, lists, adjustment, advancing, counting, end of month) reflects this same set. A calendar copied before an edit is unaffected by edits of the copy, and resetting restores the market's calendar.",
  ["histories"],"All operation sequences up to a depth over a small set of colliding dates (weekday, weekend, market holiday, month end) on several markets, all queries checked after every step.",
  "The existing test performs one fixed add/remove sequence and looks only at the lists of edits.",
  [DT+"calendar.rs"],[("add_holiday, remove_holiday, reset_added_and_removed_holidays","src/datetime/calendar.rs"),("is_business_day / is_holiday","src/datetime/calendar.rs")],
  ["Calendar::{is_holiday,holiday_list,business_day_list,adjust,advance_by_days,business_days_between,is_end_of_month,end_of_month,added_holidays,removed_holidays}"],
  [("added_holidays, removed_holidays","per-calendar edits","src/datetime/calendar.rs struct Calendar")])
p("C08","Business-day adjustment follows its convention",
  "Adjusting a business day leaves it unchanged under every convention, and adjusting a holiday gives: the first later business day (Following), that day unless it falls in another month and then the last earlier business day (Modified Following), the last earlier business day (Preceding), that day unless in another month and then the first later one (Modified Preceding), as Modified Following but also not crossing the 15th (Half-Month Modified Following), the closer of both with ties going forward (Nearest), or the date itself (Unadjusted). A calendar's end of month is the last business day of the month, and a date is at or after it exactly when end-of-month is reported.",
  ["inputs","configurations"],"All dates (away from the ends of the range) x 7 conventions x 18 calendars, plus calendars edited so that long runs of holidays cover mid-month and month ends.",
  "Tests check one convention on a few dates.",
  [DT+"calendar.rs"],[("Calendar::adjust, end_of_month, is_end_of_month","src/datetime/calendar.rs")],
  ["Calendar::{adjust,adjust_with_following,end_of_month,is_end_of_month}"])
p("C09","Advancing by business days, weeks, months and years is exact",
  "Advancing a date by n>0 (n<0) days on a calendar gives the n-th business day strictly after (before) it, and by zero of any unit gives the adjusted date. Advancing by weeks, months or years gives the plain calendar shift adjusted by the convention, except that with the end-of-month flag a month or year step from a date on or after the last business day of its month lands on the last business day of the target month. Advancing by a period equals advancing by its length and unit, and the default convention is Following.",
  ["inputs","configurations"],"Start dates across the range x offsets of both signs x units x conventions x end-of-month flag x calendars.",
  "Tests advance from one date on one calendar.",
  [DT+"calendar.rs"],[("advance_by_days, advance_by_period and the *_with_following forms","src/datetime/calendar.rs")],
  ["Calendar::{advance_by_days,advance_by_period,advance_by_days_with_following,advance_by_period_with_following}"])
p("C10","Business-day counts and lists are exact for every end-point choice",
  "The number of business days between two dates is the number of business days strictly between them plus one for each end point that is a business day and is asked to be included, negated when the first date is later; for equal dates it is one exactly when that date is a business day and both ends are included. The holiday list and business-day list over a closed range are the sorted partition of that range (holidays optionally without weekends), and an inverted range is rejected. All of this holds up to both ends of the supported date range.",
  ["inputs","configurations"],"All pairs of dates in windows (year ends, Easter, range ends) x 4 flag combinations x calendars.",
  "One test compares a table of 14 counts on one calendar.",
  [DT+"calendar.rs"],[("business_days_between, holiday_list, business_day_list","src/datetime/calendar.rs")],
  ["Calendar::{business_days_between,holiday_list,business_day_list}"])
p("C11","IMM dates and codes identify third Wednesdays consistently",
  "A date is an IMM date exactly when it is the third Wednesday of its month (of March, June, September or December for the main cycle), and the next IMM date after a date is the earliest IMM date strictly later. The code of an IMM date is its delivery-month letter and last year digit, and decoding a code against a reference date gives the earliest IMM date with that code that is on or after the reference date. Strings that are not a delivery-month letter (either case) followed by a digit are never codes.",
  ["inputs"],"All dates as reference x all 12 letters (both cases) x 10 digits x both cycles; all two-character ASCII strings plus other lengths and non-ASCII strings.",
  "Tests walk one decade and a list of codes.",
  [DT+"imm.rs"],[("is_imm_date, is_imm_code, code, date, next_date, next_code","src/datetime/imm.rs")],
  ["IMM::{is_imm_date,is_imm_code,code,date,next_date,next_date_from_code,next_code,next_code_from_code}"])
S=DT+"schedule.rs"
p("C12","Rule-based schedules contain exactly the dates their rule prescribes",
  "A schedule built backward (forward) consists of the effective and termination dates and, between them, the dates at whole multiples of the tenor counted from the termination (effective) date, or from the given next-to-last (first) date, with stubs where the last step does not fit (an omitted effective date of a backward schedule stands for the placeholder derived from the evaluation date); zero, third-Wednesday and twentieth rules place intermediate dates accordingly. Each date is then moved by the business-day convention, the last one by the termination convention, or to month ends under the end-of-month rule, and dates that coincide after adjustment appear once. The regularity flag of a period is set exactly when the period spans one full tenor of the rule rather than a stub. The schedule reports the tenor it was built with (zero years under the zero rule), its convention, and the end-of-month flag only for tenors of at least one month given in months or years.",
  ["inputs","configurations"],"Products of effective dates, lengths, tenors (days to years), 10 rules, convention pairs, end-of-month, first/next-to-last dates and calendars.",
  "Tests pin about twenty schedules; the interaction of rule, stub, end-of-month and both conventions is a large product.",
  [S,DT+"schedulebuilder.rs"],[("Schedule::new","src/datetime/schedule.rs"),("ScheduleBuilder::build defaults","src/datetime/schedulebuilder.rs")],
  ["Schedule::{dates,is_regular,size,start_date,end_date,tenor}"])
p("C13","Schedules are strictly increasing, adjusted and covering, or are refused",
  "Every schedule that is returned has at least two dates in strictly increasing order, one regularity flag per period, and intermediate dates that are business days whenever the convention adjusts; its ends are the adjusted effective and termination dates wherever the rule does not prescribe others. The order of the builder's setters does not matter, an omitted option behaves as its documented default, and the evaluation date has no effect when an effective date is given. Inconsistent inputs (effective date not before termination, negative tenor, first or next-to-last date out of range or incompatible with the rule) are refused.",
  ["inputs","configurations"],"The same products as C12 plus invalid parameter combinations, all setter orders and several evaluation dates.",
  "Tests never check these invariants over configurations, and only a few rejections.",
  [S,DT+"schedulebuilder.rs"],[("Schedule::new final safety checks and assertions","src/datetime/schedule.rs"),("ScheduleBuilder","src/datetime/schedulebuilder.rs")],
  ["ScheduleBuilder::build, Schedule::new"])
p("C14","CDS schedules and maturities fall on the standard twentieths",
  "For credit-default-swap rules the schedule of any trade date and maturity has all its unadjusted coupon dates on the 20th (of March, June, September, December for the quarterly rules), starts at the latest standard date whose adjusted value is not after the trade date (big-bang rules) or at the trade date itself (old rules), ends at the standard maturity, and never has a first period shorter than 30 days under the old rule. The standard maturity for a trade date, tenor and rule is the standard twentieth determined by the roll of that rule (quarterly, or half-yearly in March and September for the 2015 rule) and is always later than the trade date; the previous twentieth of a date is the latest standard twentieth not after it.",
  ["inputs","configurations"],"All trade dates over years of the range x tenors 0M..10Y x rules (CDS2015, CDS, OldCDS, TwentiethIMM, Twentieth) x calendars/conventions.",
  "Tests tabulate a few dozen trade dates.",
  [S,"src/instruments/creditdefaultswap.rs"],[("previous_twentieth, next_twentieth, CDS branches","src/datetime/schedule.rs"),("cds_maturity","src/instruments/creditdefaultswap.rs")],
  ["cds_maturity, previous_twentieth, Schedule::dates"])
p("C15","Truncating schedules and looking up dates keeps exactly the right dates",
  "Truncating a schedule after (until) a date keeps exactly the dates on or after (on or before) it, with that date itself as new first (last) date, its partial period marked irregular and every other flag kept; chains of truncations in any order give the schedule of the intersection, and the original is never changed. The next (previous) date of any reference date is the first schedule date not before (the last strictly before) it, with the evaluation date standing for an omitted reference and the null date as the answer when there is none. A truncation that would leave no period is refused.",
  ["histories","inputs"],"All truncation sequences up to depth 3 over all dates around short schedules; lookups for every reference date around them.",
  "Two tests truncate one schedule at three dates.",
  [S,"src/maths/bounds.rs"],[("after, until, next_date, previous_date, lower_bound","src/datetime/schedule.rs"),("lower_bound, upper_bound","src/maths/bounds.rs")],
  ["Schedule::{after,until,next_date,previous_date,dates,is_regular}"])
D=DT+"daycounters/"
p("C16","30/360-type day counts follow their conventions for every date pair",
  "For every ordered or inverted pair of dates each 30/360 convention (US, Bond Basis/ISMA, European, Italian, ISDA/German with its termination date, NASD) and 30/365 returns 360*(years) + 30*(months) + (days) with the day-of-month replacements documented for that convention, and the year fraction is that count over 360 (365). No pair of dates in the supported range is refused, and names and aliases denote the convention they announce.",
  ["inputs"],"All pairs of dates within multi-year windows covering leap and non-leap Februaries and all month lengths, in both orders, each convention.",
  "Tests check published lists of about 30 pairs per convention, all ordered; inverted pairs and pairs with a smaller end day are rare.",
  [D+"thirty360.rs",D+"thirty365.rs",DT+"daycounter.rs"],[("day_count of US, ISMA, EU, IT, ISDA, NASD","src/datetime/daycounters/thirty360.rs"),("Thirty365::day_count","src/datetime/daycounters/thirty365.rs")],
  ["DayCounter::{day_count,year_fraction,name}"])
p("C17","Actual/fixed, 1/1 and Simple day counts are exact for every date pair",
  "Actual/360 and Actual/366 return the exact number of days between two dates (plus one when the last day is included) over 360 and 366, keeping the sign; 1/1 returns plus or minus one; the Simple convention returns whole-month distances as exact twelfths and otherwise agrees with 30/360 Bond Basis. The reference period never matters for any of them.",
  ["inputs"],"All pairs in multi-year windows plus all dates against range-end anchors, several reference periods.",
  "Tests check a short list of pairs.",
  [D+"actual360.rs",D+"actual366.rs",D+"one.rs",D+"simple.rs"],[("day_count, year_fraction","src/datetime/daycounters/*.rs")],
  ["day_count, year_fraction of each convention"])
p("C18","Actual/Actual ISDA and AFB fractions are exact, additive and antisymmetric",
  "Actual/Actual ISDA gives the days falling in leap years over 366 plus the days falling in other years over 365, so it is additive over adjacent intervals, antisymmetric, zero on equal dates and exactly one per calendar year. Actual/Actual AFB counts whole years backward from the end date (a step back that lands on 28 February of a leap year is read as the 29th) and divides the remaining days by 366 when they contain a 29 February and by 365 otherwise; it is antisymmetric as well.",
  ["inputs"],"All pairs in multi-year windows around leap, non-leap and century years; every date against anchor dates; both orders.",
  "Tests list about ten pairs.",
  [D+"actualactual.rs"],[("ISDA::year_fraction, AFB::year_fraction","src/datetime/daycounters/actualactual.rs")],
  ["DayCounter::{actual_actual_isda,actual_actual_afb}.year_fraction"])
p("C19","Actual/Actual ISMA fractions make each regular coupon exactly one period",
  "Under Actual/Actual ISMA with a schedule (tenor of months that divide a year, at least two periods, only the first and last irregular) a full regular coupon period with f coupons per year is exactly 1/f of a year and a part of it is the actual days over f times the days of the period; short and long first and last periods are measured against notional regular periods, so that the fractions of adjacent intervals add up; in a schedule of one or two weeks the days are measured against the year that begins with them instead. The fraction is antisymmetric and zero for equal dates. With explicit reference periods instead of a schedule the same holds, an omitted reference period being the interval itself.",
  ["inputs","configurations"],"Schedules with tenors 1W, 2W and 1M..1Y and short/long/no front and back stubs x all date pairs inside them; reference-period form over windows of dates and reference periods.",
  "Tests check published examples of single bonds.",
  [D+"actualactual.rs"],[("ISMA::year_fraction, get_list_of_period_dates_including_quasi_payments","src/datetime/daycounters/actualactual.rs"),("OldISMA::year_fraction","src/datetime/daycounters/actualactual.rs")],
  ["DayCounter::{actual_actual_isma,actual_actual_old_isma}.year_fraction"])
R="src/rates/interestrate.rs"
p("C20","Compounding and discounting are exact inverses under every convention",
  "For every rate, compounding (simple, compounded, continuous, simple-then-compounded, compounded-then-simple), frequency and non-negative time, the compound factor is the one of the textbook formula and the discount factor is its reciprocal; both are 1 at time zero. The date-based forms equal the time-based ones at the year fraction the rate's day counter gives. The mixed conventions switch exactly at one period (simple up to and including it, or compounded up to and including it), and negative times, and compounded conventions without a frequency (none or once), are refused.",
  ["inputs","configurations"],"Grid of rates (negative, zero, small, large) x compounding x frequency x times around period boundaries x day counters.",
  "Tests tabulate a few dozen published cases.",
  [R,"src/rates/compounding.rs"],[("InterestRate::compound_factor, discount_factor","src/rates/interestrate.rs")],
  ["InterestRate::{compound_factor,discount_factor,compound_factor_for_time,discount_factor_for_time}"])
p("C21","Implied and equivalent rates reproduce the same growth",
  "The rate implied by a compound factor over a time, under any compounding and frequency, compounds back to that factor, and a rate recovered from its own compound factor is itself; a factor of exactly one over zero or positive time gives a zero rate. The equivalent rate under any other compounding, frequency and day counter has the same compound factor over the given time or dates and carries the requested conventions. Non-positive factors and impossible times are refused.",
  ["inputs","configurations"],"Grid of rates x source conventions x target conventions x times/dates.",
  "Tests tabulate single conversions.",
  [R],[("implied_rate, equivalent_rate","src/rates/interestrate.rs")],
  ["InterestRate::{implied_rate*,equivalent_rate*}"])
CF="src/cashflows/"
p("C22","A fixed-rate leg has one coupon per schedule period with the right terms",
  "A fixed-rate leg built from a schedule has exactly one coupon per schedule period in order, accruing from one schedule date to the next, with the notional and rate of its position (the last given one being repeated, and the setter called last deciding what was given), paid on the end date moved by the payment lag on the payment calendar under the payment convention. Full periods use themselves as reference period while irregular first and last periods refer to the notional full period, and first- and last-period day counters apply only there. The ex-coupon date is the given period before the payment date on its own calendar, convention and end-of-month rule.",
  ["inputs","configurations"],"Products of schedules (regular, short/long stubs), notional and rate vectors of all lengths, payment lags, conventions, ex-coupon settings and day counters.",
  "Tests build three legs.",
  [CF+"fixedrateleg.rs",CF+"fixedratecoupon.rs"],[("FixedRateLegBuilder::build","src/cashflows/fixedrateleg.rs")],
  ["FixedRateCoupon accessors of the built leg"])
p("C23","Coupon amounts and accruals are consistent across every date",
  "A coupon's amount is its notional times the growth of its rate over its accrual period minus one. On a date at or before accrual start, or after the payment date, the accrued amount is zero; in between it grows with the rate from the accrual start, equals the amount at accrual end and stays there until payment; from the ex-coupon date on the accrued amount and the accrued period are minus what is still to accrue, while accrued days count the days since accrual start. Amount, accruals and dates never depend on the order in which they are asked.",
  ["inputs","histories"],"Coupons with short, full and long periods, several day counters and compoundings, with and without ex-coupon dates x every date from before start to after payment.",
  "Tests read two accrued amounts.",
  [CF+"coupon.rs",CF+"fixedratecoupon.rs"],[("accrued_amount, accrual_days, accrued_days, accrued_period, trading_ex_coupon","src/cashflows/fixedratecoupon.rs, src/cashflows/coupon.rs")],
  ["FixedRateCoupon::{amount,accrued_amount,accrued_days,accrued_period,accrual_period,accrual_days}"])
p("C24","Cash-flow occurrence and discounting include exactly the future flows",
  "A cash flow has occurred on a date exactly when it is paid before it, or on it unless same-day flows are counted as still due, and it is traded ex-coupon exactly from its ex-coupon date on. The net present value of a leg at a yield is the sum over flows that have neither occurred nor gone ex of their amounts, each discounted through the chain of intermediate flow dates with that yield, rebased to the given value date; it is additive over legs on shared dates, linear in the amounts and zero for an exhausted leg (legs are listed in payment order). The next flow date is the earliest payment date not yet occurred, the accrued amount, days and period of a leg are those of the coupons paid at that date, and its maturity is its latest date.",
  ["inputs","histories"],"All legs of up to 4 flows over a small grid of payment dates, amounts and ex-coupon dates x all settlement dates x include flag x yields x conventions.",
  "Tests value one or two bonds.",
  [CF+"cashflow.rs",CF+"simplecashflow.rs"],[("has_occurred, trading_ex_coupon, npv, next_cashflow, accrued_amount/days/period, maturity_date","src/cashflows/cashflow.rs")],
  ["cashflow functions npv, accrued_amount, accrued_days, accrued_period, next_cashflow, maturity_date"])
I="src/instruments/"
p("C25","Bond cash flows, notionals and redemptions conserve principal",
  "For every pattern of non-increasing coupon notionals a bond's notional on a date is the one of the coupons then running and zero once the last payment has been made, and its accrued amount is per 100 of that notional. A fixed-rate bond has the coupons of its schedule on its face amount plus one redemption flow of the redemption percentage of the face on the last payment date, its flows ordered by date, and the schedule's end as maturity. The settlement date is the evaluation (or given) date advanced by the settlement days on the calendar, never before the issue date.",
  ["inputs","configurations"],"All notional vectors up to length 4 over a small alphabet of non-increasing values, settlement days, calendars, issue dates; every date.",
  "Tests build level-notional bonds only.",
  [I+"bond.rs",I+"fixedratebond.rs",I+"zerocouponbond.rs"],[("Bond trait: notional, calculate_notionals_from_cashflows, add_redemptions, settlement_date","src/instruments/bond.rs")],
  ["Bond trait methods of FixedRateBond / ZeroCouponBond"])
p("C26","Bond prices, accrued interest and yields are mutually consistent",
  "The dirty price of a bond is its clean price plus its accrued amount, both per 100 of outstanding notional, and equals the present value of the remaining flows at the yield as of settlement. The yield solved from a price reproduces that price when priced back, prices fall strictly as yields rise, and a par-coupon bond on a coupon date prices at 100 at its own coupon yield. Scaling the face amount changes neither price nor yield.",
  ["inputs","configurations"],"Fixed-rate bonds over tenors, frequencies, coupons, day counters, compoundings x settlement dates through the bond's life x yields.",
  "Tests price a dozen Treasury examples on one date.",
  [I+"bond.rs",I+"fixedratebond.rs","src/pricingengines/bond/bondfunctions.rs",CF+"irrfinder.rs"],[("clean_price, bond_yield, accrued_amount","src/instruments/*.rs"),("bondfunctions","src/pricingengines/bond/bondfunctions.rs"),("IrrFinder","src/cashflows/irrfinder.rs")],
  ["FixedRateBond::{clean_price,bond_yield,accrued_amount,...}"])
p("C27","Zero-coupon bonds price and yield consistently with their discount yield",
  "A zero-coupon bond has a single flow, its redemption at the adjusted maturity date, no accrued interest, and its price per 100 from a discount yield is one minus the discount yield times the actual days to maturity over 360. Its yield solved from a price discounts the redemption back to that price, is zero at par and falls as the price rises.",
  ["inputs","configurations"],"Maturities 1 day to 30 years, settlement dates, prices, compoundings, frequencies, day counters.",
  "Tests check five Treasury bills.",
  [I+"zerocouponbond.rs"],[("price_from_discount_yield, bond_yield, period","src/instruments/zerocouponbond.rs")],
  ["ZeroCouponBond methods"])
p("C28","Root finders return bracketed roots within accuracy or refuse",
  "For every continuous monotone function with one simple root, whichever way it crosses zero and wherever the guess lies (strictly inside enforced bounds), each solver (Brent, safe Newton, finite-difference Newton) returns, from a guess with a step or from a given bracket, a point within the requested accuracy of the root (the Newton solvers within twice of it), with every evaluation inside the bracket and the enforced bounds. An end point that already is a root is returned. A bracket without sign change, an empty or inverted bracket, a guess outside it, a non-positive accuracy and an exhausted evaluation budget are refused.",
  ["inputs","configurations"],"A family of monotone and non-monotone functions with known roots x guesses x steps x brackets x accuracies x solvers, and all invalid combinations.",
  "Tests solve x^2-1 and atan from three guesses.",
  ["src/maths/solvers1d/solver1d.rs","src/maths/solvers1d/brent.rs","src/maths/solvers1d/newtonsafe.rs","src/maths/solvers1d/finitedifferencenewtonsafe.rs"],
  [("Solver1D::solve, solve_bracketed","src/maths/solvers1d/solver1d.rs"),("solve_impl","src/maths/solvers1d/*.rs")],
  ["Solver1D::{solve, solve_bracketed}"])
p("C29","Interpolations reproduce their nodes and their polynomial class",
  "Linear interpolation passes through every node, is the straight line between neighbouring nodes, is continuous, and outside the nodes continues the first or last segment when extrapolation is on and is refused otherwise; its derivative is the slope of the segment and its primitive is the integral from the first node. Lagrange interpolation through n nodes passes through every node and reproduces every polynomial of degree below n, with its derivative, wherever the nodes lie (including zero). Replacing the ordinates has the same effect as building the interpolation anew.",
  ["inputs"],"All node sets of 2 to 5 points over a small grid including zero and negatives x ordinates from a small alphabet x evaluation points at nodes, between, and outside.",
  "Tests use one node set each.",
  ["src/maths/interpolations/linearinterpolation.rs","src/maths/interpolations/lagrangeinterpolation.rs","src/maths/interpolations/interpolation.rs"],
  [("LinearInterpolation::{value,derivative,primitive,locate}","src/maths/interpolations/linearinterpolation.rs"),("LagrangeInterpolation","src/maths/interpolations/lagrangeinterpolation.rs")],
  ["Interpolation trait methods"])
p("C30","Decimal rounding follows its mode, precision and digit for both signs",
  "Rounding to a precision gives a multiple of that power of ten that is less than one unit away: towards zero (down), away from zero (up, unless already exact), to the nearest with the threshold digit deciding the tie (closest), and for ceiling (floor) the threshold rule for negative (positive) numbers and truncation otherwise; no rounding returns the number. The symmetric modes treat both signs alike, and multiples of the unit that doubles represent exactly are left unchanged.",
  ["inputs"],"All modes x precisions x threshold digits x every decimal on a grid finer than the precision, both signs.",
  "Tests list a dozen numbers.",
  ["src/maths/rounding.rs"],[("Rounding::round and the mode types","src/maths/rounding.rs")],["Rounding::round"])
p("C31","Approximate comparison, bounds and array algebra match their definitions",
  "The closeness tests hold exactly when the difference is within the stated multiple of machine epsilon of both (close) or either (close enough) finite operands, are reflexive and symmetric, and call a number close to zero exactly when it is below the squared tolerance. Lower and upper bound return the first position not less than, respectively greater than, the value in any sorted slice. Array operations act element by element on arrays of equal length, scalar operations on every element, the dot product and norm are the usual sums, and mismatched lengths are refused.",
  ["inputs"],"Pairs of floats at and around the tolerance boundary over magnitudes, all sorted slices up to length 5 over a small alphabet, all array pairs up to length 4 over a small alphabet.",
  "Tests check single examples.",
  ["src/maths/comparison.rs","src/maths/bounds.rs","src/maths/array.rs"],[("close, close_n, close_enough","src/maths/comparison.rs"),("lower_bound, upper_bound","src/maths/bounds.rs"),("Array ops","src/maths/array.rs")],
  ["functions and operators"])
p("C32","Currency definitions carry their ISO identity",
  "Every currency offered has the ISO 4217 three-letter and numeric code of the currency it is named after, and its documented name, symbol, fraction symbol and fractions per unit; no two different currencies share a code (the offshore yuan has the onshore one's number), and comparing two currencies compares their identity. Money keeps the amount and currency it was built with.",
  ["configurations"],"All currencies of all regions.",
  "No test looks at the data beyond a few samples.",
  ["src/currencies/africa.rs","src/currencies/america.rs","src/currencies/asia.rs","src/currencies/europe.rs","src/currencies/oceania.rs","src/currencies/currency.rs"],
  [("currency constructors","src/currencies/*.rs")],["Currency accessors"])
p("C33","Modified duration is the relative sensitivity of the discounted leg",
  "The modified duration of a leg at a yield is minus the derivative of its discounted value by the yield, divided by that value, the amounts of all flows not yet occurred (nor gone ex) being discounted over the time from settlement to their payment dates accumulated flow by flow. It is zero for a leg without remaining flows, unchanged when all amounts are scaled, and for a single flow under continuous compounding it is the time to that flow.",
  ["inputs","configurations"],"All small legs over a grid of payment dates, amounts, coupons and ex-coupon dates x settlement dates x include flag x yields x compoundings x frequencies x day counters.",
  "No test calls it directly; it is reached only as the slope of a root search that converges with a wrong slope too.",
  [CF+"cashflow.rs",CF+"irrfinder.rs"],[("modified_duration","src/cashflows/cashflow.rs"),("IrrFinder::derivative","src/cashflows/irrfinder.rs")],
  ["cashflow::modified_duration"])
p("C34","Zero-yield discounts, quotes and stocks return what defines them",
  "The discount factor of any zero-yield structure at time t is exp(-z(t)*t) and one at time zero, where the zero yield is not needed. A quote returns its stored value and is valid, and a stock is worth its quote with no error estimate.",
  ["inputs"],"Flat and sloped structures x rates of both signs x times to 100 years; quotes and stocks over several values.",
  "Only one stock with one quote is tested; no test calls the zero-yield discount.",
  ["src/termstructures/zeroyieldstructure.rs","src/quotes/simplequote.rs","src/instruments/stock.rs","src/instruments/instrument.rs"],[("ZeroYieldStructure::discount","src/termstructures/zeroyieldstructure.rs"),("Stock::perform_calculations","src/instruments/stock.rs")],
  ["ZeroYieldStructure::discount, SimpleQuote::value, Stock::npv"])
p("C35","Day counters are values: equal by convention, and alike in every guise",
  "Two day counters are equal exactly when they are of the same convention, so that a copy equals its original and the documented other names (bond basis, Eurobond basis, German, the defaults of each type) equal the convention they stand for. Each carries the documented name of its convention, also as printed text. Copies, other names and the convention asked directly rather than through the common type count the same days and the same year fractions as the original for every pair of dates.",
  ["inputs","configurations"],"All ways of obtaining the 16 conventions, all ordered pairs of them, each over all ordered pairs of a grid of dates with month ends, leap days and year ends.",
  "Tests compare no two day counters and name none; the other names and wrapped forms are not exercised.",
  [DT+"daycounter.rs",DT+"daycounters/thirty360.rs",DT+"daycounters/actualactual.rs",DT+"daycounters/actual360.rs",DT+"daycounters/actual366.rs",DT+"daycounters/thirty365.rs",DT+"daycounters/one.rs",DT+"daycounters/simple.rs"],
  [("DayCounter dispatch, PartialEq, Debug, constructors","src/datetime/daycounter.rs"),("name() of the conventions","src/datetime/daycounters/*.rs")],
  ["DayCounter::{name,day_count,year_fraction}, ==, Debug, Clone"])
p("C36","A yield curve answers alike by date, by time and by period",
  "For any yield term structure the discount factor on a date is its discount factor at the time of that date from the reference date, and the forward rate over a period starting on a date is its forward rate from that date to the date moved by the period; the day counter, compounding, frequency and extrapolation flag asked for are the ones used. Asking again gives the same answer.",
  ["inputs","configurations"],"Curves from several reference dates and day counters x dates around and after the reference date x both extrapolation flags; forward periods in all units x compoundings x frequencies x result day counters.",
  "No test builds a yield term structure.",
  ["src/termstructures/yieldtermstructure.rs","src/termstructures/termstructure.rs"],
  [("discount_from_date, forward_rate_from_date_period (provided methods)","src/termstructures/yieldtermstructure.rs")],
  ["YieldTermStructure::{discount_from_date,forward_rate_from_date_period}"])
p("C37","Numbers and texts stand for exactly the values they denote",
  "Months are the numbers 1 to 12, weekdays 1 (Sunday) to 7 (Saturday, also 0) and frequencies their number of events per year; converting to the number and back is the identity and every other positive number, and every other month or weekday number, is refused. Saturdays and Sundays are weekends of the western and orthodox kind, no day is one of the kind without weekends. A period prints its length and the sign of its unit (D, W, M, Y, H, m, s, ms, us), a schedule prints its dates in order. The number of days in a time is the nearest whole number of the product with the days per year, halves away from zero, 360 being the default.",
  ["inputs"],"All integers of a window around zero and at the ends of the integer range, all weekdays and weekend kinds, all units, a grid of times over all usual day bases, schedules starting on every day of ten years.",
  "Tests convert single values.",
  [DT+"months.rs",DT+"weekday.rs",DT+"weekend.rs",DT+"frequency.rs",DT+"period.rs",DT+"schedule.rs","src/datetime.rs"],
  [("From impls of Month, Weekday, Frequency","src/datetime/{months,weekday,frequency}.rs"),("Debug of Period and Schedule","src/datetime/{period,schedule}.rs"),("time_to_days, time_to_days_with_days_per_year","src/datetime.rs")],
  ["From<Integer>/From<Natural> conversions, is_weekend, Debug, time_to_days"])
p("C38","A yield is searched for exactly where one can exist, and is found",
  "The search for the yield of a leg at a price is refused exactly when the payment of the price followed by the flows that remain after settlement (those neither occurred nor gone ex) never changes sign (zero having none), since then no yield can exist; otherwise the function whose root is searched is the price less the discounted value of the leg at the yield. For a leg that pays coupons and redeems its principal, the yield at which it was priced is found again within the accuracy asked for, whichever the first guess.",
  ["inputs","configurations"],"All legs up to a length over amounts of both signs with a flow gone ex or not, settled around every flow with and without including flows of the day, prices of both signs; bond-like legs x yields x conventions x guesses x accuracies.",
  "Tests solve for the yield of a few bonds; the refusal, negative prices and flows gone ex are not exercised.",
  [CF+"irrfinder.rs",CF+"cashflow.rs"],[("IrrFinder::new / check_sign","src/cashflows/irrfinder.rs"),("IrrFinder::value","src/cashflows/irrfinder.rs"),("bond_yield","src/cashflows/cashflow.rs")],
  ["IrrFinder::new, its value at a yield, cashflow::bond_yield"])
p("C39","What is built with an edited calendar follows its edits",
  "After any sequence of adding and removing holidays and resetting, everything that is then built with the calendar - schedules of every rule, payment, ex-coupon and reference dates of legs, redemption and settlement dates of bonds, as schedule calendar, payment calendar or ex-coupon calendar - falls on the dates that the edited holiday set prescribes. Edits made after the calendar was handed over change nothing that was built with it, and nothing built later from that schedule.",
  ["histories"],"All edit histories up to a depth over colliding dates (a Sunday, a Monday holiday, month ends, a Saturday) on several markets x schedules of several rules and conventions x the three places a calendar can be handed to; every further edit afterwards.",
  "Tests build with unedited calendars only.",
  [DT+"calendar.rs",DT+"schedule.rs",CF+"fixedrateleg.rs","src/instruments/fixedratebond.rs","src/instruments/zerocouponbond.rs","src/instruments/bond.rs"],
  [("Calendar edits","src/datetime/calendar.rs"),("Schedule keeps its calendar","src/datetime/schedule.rs"),("payment and ex-coupon calendars","src/cashflows/fixedrateleg.rs"),("Bond::settlement_date","src/instruments/bond.rs")],
  ["dates of schedules, coupons and redemptions, Bond::settlement_date"])
p("C40","Answers do not depend on what was asked before",
  "Every query - of calendars, day counters, schedules, IMM and CDS dates, rates, legs, bonds, root finders, interpolations and quotes - gives in every order of asking, on the same objects or on freshly built ones, in a new thread or an old one, exactly the answer it gives when it is the only thing ever asked; editing one calendar changes no other.",
  ["histories"],"A table of questions about objects of every part that share dates, curves and calendars pairwise: every ordered pair on the same and on fresh objects, every ordered triple with a repetition.",
  "Tests ask each object once, in one order.",
  [DT+"calendar.rs",DT+"schedule.rs",DT+"daycounters/actualactual.rs","src/rates/interestrate.rs",CF+"cashflow.rs","src/instruments/bond.rs","src/maths/solvers1d/solver1d.rs"],
  [("no state outlives a query","the whole crate: queries take &self and there are no statics")],
  ["all public queries"])
p("C41","Legs cut at a date of their schedule keep their coupons",
  "Let a fixed-rate leg be built on a schedule, and two more on the schedule until a date of it and after that date, with the notionals and rates of their positions. Together the two legs have the coupons of the whole one: the same accrual, payment and ex-coupon dates, notional and rate each, and the same reference period and amount, except that an irregular period next to the cut may be measured from another reference period. A date inside a period splits that period in two parts which keep its notional and rate, accrue to that date and from it, and, under Actual/360, pay together what the whole period pays.",
  ["inputs","configurations"],"Schedules of all rules with and without stubs, cut at every one of their dates and at places inside every period, x day counters x lists of notionals and rates x payment lags and calendars x ex-coupon periods.",
  "No test builds a leg on a truncated schedule.",
  [DT+"schedule.rs",CF+"fixedrateleg.rs",CF+"fixedratecoupon.rs"],
  [("Schedule::until, Schedule::after","src/datetime/schedule.rs"),("FixedRateLeg::build","src/cashflows/fixedrateleg.rs")],
  ["Schedule::{until,after}, FixedRateLeg::build, coupon accessors and amounts"])
p("C42","Every full period pays the same under Actual/Actual ISMA",
  "On a schedule whose tenor is a whole fraction 1/f of a year, every regular period accrues exactly 1/f of a year under Actual/Actual ISMA, whichever its actual number of days and however its ends were adjusted, measured by reference periods or by the schedule, and its coupon is rate/f of the notional; the coupons of a leg without stubs sum to the rate times its years. A bond paying such coupons on the ends of the periods and redeemed at par has, on every coupon date, the clean price 100 at a yield equal to its coupon, compounded f times a year.",
  ["inputs"],"Tenors of 1, 2, 3, 4, 6 and 12 months x lengths of 1 to 30 years x start dates incl. month ends x rules x conventions x calendars x month-end rule x stubs: every full period, every coupon date.",
  "Tests use semiannual and annual examples.",
  [DT+"daycounters/actualactual.rs",DT+"schedule.rs",CF+"fixedrateleg.rs",CF+"fixedratecoupon.rs","src/instruments/fixedratebond.rs"],
  [("old ISMA and ISMA year fractions","src/datetime/daycounters/actualactual.rs"),("reference periods","src/cashflows/fixedrateleg.rs"),("Bond::clean_price_from_yield","src/instruments/bond.rs")],
  ["CashFlow::amount, Coupon::accrual_period, Bond::clean_price_from_yield"])
p("C43","A yield prices alike in every convention in which it is quoted",
  "Converting a compounded or continuous yield into its equivalent in another compounding or frequency of the same day counter changes no bond price on any settlement date, and the yield solved from a price in the other convention is the equivalent one. While a bond pays nothing and nothing goes ex-coupon, its dirty price at a yield grows from one settlement date to a later one by the compound factor of that yield, for day counters under which times add up. A single flow is priced under the mixed conventions as under the one of their two which is in force at its time.",
  ["inputs","configurations"],"Bonds with stubs, ex-coupon periods, step coupons and premium redemption x settlement dates through the life x yields x all ordered pairs of compounding conventions x day counters; day-to-day growth in first and last periods.",
  "Tests price in one convention at a time.",
  ["src/rates/interestrate.rs",CF+"cashflow.rs","src/instruments/bond.rs",CF+"irrfinder.rs"],
  [("InterestRate::equivalent_rate, compound factors","src/rates/interestrate.rs"),("npv at a yield","src/cashflows/cashflow.rs"),("prices and yields","src/instruments/bond.rs")],
  ["InterestRate::equivalent_rate, Bond::{dirty_price_from_yield,bond_yield}"])
p("C44","A refused operation leaves everything as it was",
  "When an operation is refused (it panics on its arguments, or because a function, quote, cash flow or curve supplied by the caller gives up at any of its uses), the values it would have changed in place (dates, periods, calendars, arrays) keep their former state exactly, and the objects it was asked of (calendars, schedules, day counters, interpolations, legs, bonds, rates, solvers) and all others answer later questions as if it had never been tried, whatever the number and order of refused and accepted operations.",
  ["inputs","histories","fault_sequences"],"Every history to a depth over in-place dates and periods, edited calendars at the ends of the date range, arrays, interpolations, bond terms and solvers, refused and accepted operations mixed; searches and valuations given up at each use of the caller's function.",
  "Tests stop at the first refusal (should_panic) and never look at what it leaves behind.",
  ["src/datetime/date.rs","src/datetime/period.rs","src/datetime/calendar.rs","src/maths/array.rs","src/maths/solvers1d/solver1d.rs",CF+"cashflow.rs"],
  [("Date::{add_assign,sub_assign}","src/datetime/date.rs"),("Period::{add_assign,sub_assign,div_assign,normalise}","src/datetime/period.rs"),("Calendar edits and queries","src/datetime/calendar.rs"),("Array::{index_mut,swap}","src/maths/array.rs"),("Solver1D::{solve,solve_bracketed}","src/maths/solvers1d/solver1d.rs")],
  ["Date, Period, Calendar, Array mutators; Solver1D::solve; cashflow::npv, cashflow::bond_yield; Bond and Schedule methods"])
p("C45","Computations nested in one another or interleaved do not disturb each other",
  "Whatever computation is started while another is under way (inside a use of the caller's function, cash flow, curve or quote, to any depth, on the same objects or others; or on another thread, switched to and from at any such use), each gives exactly the answer, and looks at the caller's function at exactly the points, that it gives when run alone. This covers searches, valuations, durations, yields, discounts, calendar and schedule questions, day counts, bonds, interpolations and roundings.",
  ["histories","schedules"],"Every computation of a set nested at every point of every one (and three deep), and every schedule of pairs and triples of them on separate threads up to a bound on preemptions, under a controlled scheduler.",
  "Tests run one computation at a time, each to its end.",
  ["src/maths/solvers1d/solver1d.rs","src/maths/solvers1d/newtonsafe.rs","src/maths/solvers1d/brent.rs",CF+"cashflow.rs","src/instruments/bond.rs","src/termstructures/zeroyieldstructure.rs"],
  [("Solver1D::{solve,solve_bracketed}","src/maths/solvers1d/solver1d.rs"),("npv, modified_duration, bond_yield",CF+"cashflow.rs"),("Bond methods","src/instruments/bond.rs"),("ZeroYieldStructure::discount","src/termstructures/zeroyieldstructure.rs")],
  ["Solver1D::solve, solve_bracketed; cashflow::npv, modified_duration, accrued_amount, bond_yield; Stock; Bond; Calendar; Schedule; DayCounter; LinearInterpolation; Rounding; IMM"])
p("C46","What is changed in an object's fields shows in its answers",
  "The public fields of rates, coupons, payments, quotes, stocks, periods, arrays, yield searches, pricing contexts, legs in the making and bonds may be changed at any time; after any sequence of such changes, and whatever was asked in between, every answer is the one of an object built with the new values in the first place (and a bond's settlement date the one its settlement days, calendar and issue date now give).",
  ["histories","inputs"],"Every history of field changes to a depth on each kind of object, with every ordered pair of questions asked before, between and after the changes.",
  "Tests build an object once and never change a field afterwards.",
  ["src/rates/interestrate.rs",CF+"fixedratecoupon.rs",CF+"fixedrateleg.rs",CF+"simplecashflow.rs",CF+"irrfinder.rs","src/instruments/fixedratebond.rs","src/instruments/zerocouponbond.rs","src/instruments/bond.rs","src/datetime/period.rs","src/maths/array.rs","src/quotes/simplequote.rs"],
  [("InterestRate",  "src/rates/interestrate.rs"),("FixedRateCoupon",CF+"fixedratecoupon.rs"),("FixedRateLeg",CF+"fixedrateleg.rs"),("FixedRateBond","src/instruments/fixedratebond.rs"),("Array","src/maths/array.rs"),("Period","src/datetime/period.rs")],
  ["public fields of InterestRate, FixedRateCoupon, FixedRateLeg, SimpleCashFlow, Redemption, AmortizingPayment, SimpleQuote, Stock, Period, Array, IrrFinder, PricingContext, FixedRateBond, ZeroCouponBond, and their methods"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
