SCHED = "scheduling_tools/scheduler.py"
HOL = "scheduling_tools/holidays.py"
DCCF = "scheduling_tools/day_count_calculator.py"
CONF = """Conformance: every recorded call of the real code is judged by TLC against the specification's own evaluation;
holds for the inputs and histories driven (seeded, counted in the evidence). """

prop("P01", "Business days are exactly the weekdays that are not observed holidays",
     """For every date and holiday calendar, a date counts as a business day exactly when it is a weekday on which no
     holiday of the calendar is observed - including a holiday whose observed date falls in the year before or after its
     own. Listing the holidays of a range of years gives each holiday's observed date of each year once, and listing the
     business days between two dates gives all business days of the closed interval, in increasing order. Each answer is for
     the calendar as it then is, whatever was asked, changed in a calendar or done with an answer before.""",
     ["inputs", "histories", "configurations"], "all dates, year ranges and holiday calendars (the US federal one and arbitrary templates with any observation rule)",
     "The tests sample a handful of 2024 dates with the built-in calendar; year boundaries and other calendars are never reached.",
     [SCHED, HOL],
     [("business-day test and interval listing", SCHED), ("holiday templates, observation rules, yearly generation", HOL)],
     ["Scheduler.is_business_day / generate_business_days", "generate_all_holidays, generate_holiday_dates, get_next_weekday"],
     CONF + "The calendar arithmetic of the specification is itself model-checked (ticking calendar against closed forms).",
     "TLA+ calendar/holiday specification, TLC model checking and trace validation of recorded calls")

prop("P02", "Business-day moves, date adjustment and settlement land where counted",
     """Moving a date by n business days lands on the n-th business day after (or before) it, where a date that is not a
     business day counts from the next business day. Following adjustment gives the first business day on or after the
     date, modified following the last one before it instead when that would leave the month; each settlement convention
     gives the date its business-day offset says (T-0 the last business day on or before the date). Every result is a business day, and a sequence of single moves
     agrees with one move by their total. Each answer is for the calendar as it then is, whatever was asked or changed before.""",
     ["inputs", "histories", "configurations"], "all dates, offsets, conventions, holiday calendars and sequences of moves",
     "The tests check a few moves in one year; long sequences, year ends, clustered holidays and custom calendars are not sampled.",
     [SCHED, HOL], [("business-day moves, adjustments, settlement", SCHED)],
     ["Scheduler.add_business_days, add/subtract_single_business_day, following/modified_following_date_adjustment, calculate_settlement_date"],
     CONF + "Walks are validated as behaviours of a state machine; the closed definitions are model-checked against a day-by-day walker.",
     "TLA+ state machine of business-day walks, TLC model checking and trace validation")

prop("P03", "Generated schedules are the start plus whole multiples of the increment",
     """A schedule between two dates or timestamps at an increment consists of the start plus 0, 1, 2, ... increments, in
     order, for exactly as long as the end is not passed (in either direction), each computed from the start so that
     month-end clipping does not accumulate. The number of dates is capped by the requested maximum. Asking again, with the same or
     other arguments and after a caller has changed an earlier answer, makes no difference.""",
     ["inputs", "histories"], "all start and end dates and timestamps, increments of days, weeks, months, years, hours, forward or backward",
     "The tests walk a few schedules of 30-day or monthly steps from the first of a month.",
     [SCHED], [("schedule generation", SCHED)], ["Scheduler.generate_dates_by_increments"],
     CONF + "The closed form is model-checked against one-increment-at-a-time construction.",
     "TLA+ schedule specification, TLC model checking and trace validation")

prop("P04", "Accrual lengths follow the day-count convention, for dates and timestamps",
     """The length of an accrual period is what its day-count convention defines (actual/360, actual/365, actual/365.25,
     actual/actual by year position, 30/360 US with end-of-month rule), for any two dates in order; timestamps interpolate
     linearly within the day, and a date stands for its midnight. Lengths are never negative, reversed dates and anything that is no convention are refused,
     lengths never shrink as the end moves later, and for the actual conventions consecutive periods add up. A timedelta is its share of a year of 365.25 days.""",
     ["inputs"], "all pairs of dates or timestamps and all conventions",
     "The tests check a few pairs; leap years, month ends, timestamps and additivity over arbitrary partitions are not covered.",
     [DCCF], [("one function per convention, timestamp interpolation", DCCF)], ["DayCountCalculator.compute_accrual_length"],
     CONF + "Additivity and monotonicity are model-checked on the specification over ticking dates.",
     "TLA+ day-count specification, TLC model checking and trace validation")

CASH = "assets/base_cashflow.py"
CURV = "curves/base_curve.py"
YC = "curves/yield_curves/yield_curve.py"
KR = "risk/key_rate.py"
RM = "risk/risk_metrics.py"
UST = "assets/us_treasury_instruments/us_treasury_instruments.py"
CORP = "assets/credit/corporate_bond.py"

prop("P05", "Cash flows keep date order, lose no payment, and are worth the discounted sum",
     """A cash flow holds exactly the payments put into it, in order of date (payments of one date in the order they came),
     through any sequence of constructions, additions, slices and reads, whatever kind of iterable they came from; its
     series, data frame, dates and amounts are that sequence, and a slice has exactly the payments of its range. A
     collection of cash flows maps each key to the latest cash flow put under it, and its length, iteration, key list and
     membership agree. The present value on a discount curve is the sum of discount factor times amount over the payments
     on or after the curve's reference date; a payment without an amount counts nothing. A zero-coupon instrument is
     worth its unit payment.""",
     ["inputs", "histories"], "all sequences of operations on cash flows and collections, all payments (including several on one date and missing amounts), all discount curves",
     "The tests build one or two cash flows in order and read them once.",
     [CASH, CURV], [("ordered payment heap and views", CASH), ("present value by discounting", CURV)],
     ["Cashflow(...), add_payment, indexing, slicing, iteration, to_series, to_dataframe", "CashflowCollection item access", "Cashflow.present_value, DiscountCurve.present_value"],
     CONF + "All short operation sequences are enumerated by TLC from the specification and replayed into the code.",
     "TLA+ cash-flow state machine, TLC-generated behaviours replayed and traces validated")

prop("P06", "A curve passes through its knots, interpolates by its method, and can be reset",
     """A curve passes through every knot exactly, whatever order the knots are given in. Between knots it is the value of
     the last knot at or before the date (previous), the straight line between the neighbours (linear), or the
     not-a-knot quadratic or cubic spline, with time measured by the curve's day count from its reference date. Before the
     first and after the last knot it is the end knot's value or refused, as the two end behaviours say, each on its own side. An
     adjustment function adds its value at the asked date, on and between the knots and outside them. Resetting the values, or one of them,
     gives the curve one would have built from the new values; a reset that does not make a curve is refused and leaves the curve
     as it was. The lists of knots given stay the caller's: the curve neither changes them nor follows later changes to them.""",
     ["inputs", "histories", "configurations"], "all knots (dates or timestamps), methods, day counts, reference dates, end behaviours, adjustments, sequences of resets and evaluations",
     "The tests evaluate two small curves at a few dates.",
     [CURV], [("interpolation, end behaviour, adjustments, resets", CURV)],
     ["Curve.interpolate / __call__, interpolation_values, reset_interpolation_values, reset_interpolation_value_at, date_to_interpolation_axis"],
     CONF + "Splines are solved in 40-digit decimals by the specification's own system; reset histories are model-checked.",
     "TLA+ curve specification (exact decimal arithmetic), TLC model checking and trace validation")

prop("P07", "A yield curve's discount factors follow its definition and stay what they were",
     """Discounting with a continuously compounded yield curve gives exp(-y(t) t) with t by the curve's day count from its
     reference date, with 1 at the reference date; a yield curve over discount factors interpolates the factors themselves. An
     adjustment (a key-rate collection or function) is added to the interpolated values before. A discount curve once taken keeps
     its values when the yield curve is later reset, re-adjusted or evaluated otherwise, and the adjustment passed for one evaluation does not leak
     into others. Present values on the yield curve are those on its discount curve, over the payments its holder receives. Quotes passed
     beside the instruments are added to their values.""",
     ["inputs", "histories", "configurations"], "all knots, methods, spaces, adjustments, instruments and orders of taking discount curves, resetting and evaluating",
     "The tests take one discount curve from one yield curve and evaluate it at once.",
     [YC, CURV], [("yield to discount curve, present value", YC)], ["YieldCurve.to_discount_curve, present_value, __call__, reset_interpolation_values"],
     CONF + "Snapshots are values of the specification's state; the validation follows every snapshot over the whole history.",
     "TLA+ state machine of curves and snapshots, TLC trace validation")

prop("P08", "A curve calibrated to instruments reprices every one of them",
     """Calibrating a yield curve to instruments with market prices gives a curve with one knot per instrument at its last payment date,
     on which the present value of what each instrument's holder receives (payments due on or after settlement) equals the instrument's quoted price (principal 100), whatever the order of the
     instruments, the kind of iterable and the interpolation method; for bootstrapping, with previous and linear interpolation.""",
     ["inputs", "configurations"], "all sets of bonds with consistent prices and distinct maturities, orders, settlement conventions, interpolation methods",
     "The tests calibrate to one set of bonds in maturity order with the default method.",
     [YC, UST], [("bootstrap and global calibration", YC)], ["YieldCurveFactory.bootstrap_yield_curve, construct_yield_curve"],
     CONF + "Repricing is recomputed by the specification from the calibrated knots alone.",
     "TLA+ valuation specification, TLC trace validation of calibrations")

prop("P09", "A key rate's adjustment is a hat between its neighbours' dates",
     """A key rate's adjustment is its bump at its own date, falls linearly (in the key rate's day count) to zero at the prior and next dates and is zero
     beyond; without a prior (next) date it stays at the bump on that side for ever. Setting the prior date, next date or bump changes exactly
     that, takes effect immediately and never moves the key-rate date; neighbours on the wrong side are refused and change nothing. Key rates
     compare by date; equal ones (same date and day count) have equal hashes.""",
     ["inputs", "histories"], "all dates, neighbours, day counts, bumps and sequences of setting them",
     "The tests evaluate one key rate at four dates.",
     [KR], [("hat function and setters", KR)], ["KeyRate(...), set_prior_date, set_next_date, set_bump_val, __call__, adjustment_fxcn, comparisons, hash"],
     CONF, "TLA+ key-rate specification, TLC trace validation of operation histories")

prop("P10", "A key-rate collection stays sorted and linked, and its hats add up",
     """Through any sequence of constructing, adding, inserting, assigning, deleting, removing, slicing and concatenating, a key-rate
     collection holds its key rates once each in date order, each one's prior and next dates being its neighbours' (none at the ends), so that with
     equal bumps (in one day count) the adjustments sum to exactly that bump at every date. An assignment out of order or an invalid collection is refused and changes nothing;
     slices and sums are new collections that leave their operands as they were; setting the bump sets every member's; the collection's adjustment is the sum of its members' current adjustments.""",
     ["inputs", "histories"], "all sequences of collection operations over key rates of any dates, including duplicates, out-of-range indices and aliasing",
     "The tests add two or three key rates and read the dates.",
     [KR], [("sorted, linked collection", KR)], ["KeyRateCollection(...), +=, +, insert, item assignment and deletion, remove, slicing, iteration, ==, set_bump_val, __call__"],
     CONF + "All short operation sequences are enumerated by TLC and replayed; the partition-of-unity invariant is model-checked.",
     "TLA+ heap state machine of key-rate collections, TLC-generated behaviours replayed and traces validated")

prop("P11", "Key-rate risk is the value change for a basis point; inputs are left alone",
     """The PV01 of an asset at a key rate is its present value on the yield curve with the key rate's hat raised by half a basis point less that
     with the hat lowered by half a basis point; the key-rate derivative is that divided by a basis point. A risk ladder has exactly one entry per key rate of the collection, in order, with that key rate's date
     and PV01; for a collection that covers the curve the entries add up to the effect of a parallel one-basis-point shift. Computing risk leaves curve, asset
     and key rates (bumps, neighbours) as they were, so that repeating it gives the same and later valuations are unaffected; so does a request that is refused because the curve
     cannot value the asset. A ladder is read in its order however it is stepped through, and keeps the risks it was made from.""",
     ["inputs", "histories"], "all yield curves, assets, key-rate collections and bumps, repeated and interleaved with valuations",
     "The tests compute one ladder and compare its sum with one duration.",
     [YC, RM, KR], [("key-rate derivative, PV01, ladder", YC), ("ladder container", RM)],
     ["YieldCurve.calculate_pv01_risk, calculate_key_rate_deriv, calculate_pv01_risk_ladder", "RiskLadder accessors"],
     CONF, "TLA+ valuation specification, TLC trace validation of risk calculations")

prop("P12", "A bond pays its coupons back from maturity and accrues interest in between",
     """A bond's coupons fall on maturity minus whole multiples of the coupon period, after the dated date (maturity minus tenor), each
     computed from maturity so month ends do not drift, each of principal times rate over frequency, paid on the date adjusted by the bond's convention and
     holiday calendar; the principal is paid at the adjusted maturity. Settlement is as the convention says with the same calendar. Accrued interest at
     settlement is the coupon times the fraction of the current coupon period elapsed, counted from the last coupon date before settlement (or the dated date), hence a full coupon on a
     coupon date itself, and it is refused outside the bond's life. A payment is received exactly when it is due on or after settlement. The bond keeps the terms it was made with.""",
     ["inputs", "configurations"], "all maturities, tenors, frequencies, coupons, principals, day counts, adjustments, settlement conventions, calendars and purchase dates",
     "The tests check one ten-year bond and one purchase date.",
     [UST, CORP], [("treasury bond", UST), ("corporate fixed-rate bond", CORP)],
     ["UsTreasuryBond, FixedRateBond: coupon and principal payments, dated_date, settlement_date, calculate_accrued_interest, calculate_coupon_payment, is_payment_received"],
     CONF + "Accrual over a whole bond life is model-checked on the specification.",
     "TLA+ bond specification, TLC model checking and trace validation")

prop("P13", "A bond's yield to maturity discounts what its holder receives to the full price",
     """The full price is the clean price plus accrued interest per 100 of principal at the settlement of the date asked about. Discounting at a rate y sums each received
     payment times (1+y/n)^(-n t), n the payments per year and t the day-count time from the date asked about to the adjusted payment date. The yield to maturity is the rate at
     which that equals the full price, for any purchase or other date asked about; asking about another date does not change the answers for the bond's own. On a
     discount curve a bond is worth the factors times what the holder receives who buys on the curve's date.""",
     ["inputs", "histories", "configurations"], "all coupon-bearing bonds, prices, rates, discount curves and dates asked about, in any order",
     "The tests check one bond priced at one date.",
     [UST, CORP], [("full price, discounting, yield", UST), ("full price, discounting, yield", CORP)],
     ["get_full_price, discount_cashflows_by_fixed_rate, yield_to_maturity"], CONF + "The yield is judged by repricing in 40-digit decimals.",
     "TLA+ bond specification, TLC trace validation")

prop("P14", "Duration and convexity are the price's relative slope and curvature in yield",
     """Duration is minus the central difference over one basis point of the discounted value in the rate at the yield to maturity, divided by the full price in money
     (price times principal over 100); convexity is the corresponding second difference divided by the same; the derivative helper is the central difference at the
     given rate and offset. Macaulay duration is the discounted-value-weighted average of the payment times divided by the full price in money. None of them changes the bond.""",
     ["inputs", "configurations"], "all coupon-bearing bonds, principals, prices and rates",
     "The tests check one bond of principal 100.",
     [UST, CORP], [("duration, convexity", UST), ("Macaulay duration", CORP)],
     ["duration, convexity, pv_deriv, macaulay_duration"], CONF, "TLA+ bond specification, TLC trace validation")

SWAP = "assets/rates/linear_rates/interest_rate_swap.py"
FUT = "assets/rates/linear_rates/interest_rate_future.py"
LOAN = "assets/credit/loan.py"
PORT = "portfolio/base_portfolio.py"
POPT = "portfolio/portfolio_optimization.py"

prop("P15", "A swap's legs tile its life from the start in periods aligned to the end",
     """A swap starts on the settlement date of its purchase (by its convention and holiday calendar) and ends its tenor later. Each leg's accrual periods are bounded by the start and by the
     end minus whole payment periods after the start, each computed from the end, adjusted by the swap's business-day convention: they leave no gap, including the first (possibly short) one, and
     each has the leg's day-count length. Each fixed payment is the period's length times notional times the fixed rate; each floating one the same times the rate of the period - for a term-rate swap the rate on the
     period's fixing date, for an overnight-index swap the daily rates compounded over the period's business days, each for the time to the next - paid on the period's end moved by the payment delay convention. Computing a leg returns it, stores it
     in the swap only when asked to, and then keeps it until replaced; a leg frequency other than 1, 2 or 4 a year is refused. The swap keeps the terms it was made with.""",
     ["inputs", "histories", "configurations"], "all swaps (dates, tenors, frequencies, day counts, calendars, adjustments, fixing and delay conventions), rate functions and curves, and sequences of leg computations",
     "The tests build two swaps and look at a few dates; odd first periods, month ends, other calendars and stored-leg histories are not covered.",
     [SWAP, SCHED], [("leg schedules, term and overnight rates, stored legs", SWAP)],
     ["TermInterestRateSwap, OvernightIndexSwap: generate_fixed/floating_leg_accrual_schedule, generate_fixed/floating_leg_cashflow, fixed_leg, floating_leg, calculate_annualized_rate, to_knot_value_pair"],
     CONF + "The leg calculus (no gap, aligned to the end) is model-checked; every short sequence of leg operations is enumerated by TLC and replayed.",
     "TLA+ swap specification, TLC model checking, TLC-generated behaviours replayed and traces validated")

prop("P16", "A swap is worth the legs' difference and nothing at its implied rate",
     """The present value of a swap on a discount curve is the present value of the received leg minus that of the paid leg (the payer pays fixed), taken from the legs stored in it, and refused while either has not been
     generated or falls outside the curve. The implied rate of a swap is the fixed rate at which the value is nil: present value of the floating leg over that of the fixed leg per unit of rate; a payer and a receiver swap of the same terms have opposite values.
     Valuing does not change the swap, and finding the implied rate stores a floating leg only when asked to.""",
     ["inputs", "histories"], "all swaps, discount curves, rate functions and sequences of generating legs and valuing",
     "The tests value two swaps on one flat curve.",
     [SWAP, CASH], [("present value, implied rate", SWAP)], ["TermInterestRateSwap, OvernightIndexSwap: present_value, implied_rate"],
     CONF + "Nil value at the implied rate and payer/receiver symmetry are model-checked on the specification.",
     "TLA+ swap specification, TLC model checking and trace validation")

prop("P17", "Loan payments amortise the principal exactly once, interest first",
     """A loan's payments fall on the end (or, the month after, the start) of the month of origination plus whole payment periods until its term ends. Each pays the interest accrued since the previous date by the loan's day count on the balance
     still owed, and the remainder (plus the extra payment of that period) reduces the balance, never by more than is owed - so principal repaid never exceeds the loan and later payments are nil; total payment is interest plus principal, extras included. The level payment is
     the annuity payment that repays the loan over its term at its rate per period (principal over number of payments without interest), and the present value of a loan discounts its level payments. An unsupported frequency is refused, and none of these calls changes another's result.""",
     ["inputs", "histories", "configurations"], "all principals, rates (zero and negative included), origination dates, terms, frequencies, payment times, payment amounts and extra-payment sequences",
     "The tests check one 30-year loan's first payments.",
     [LOAN], [("payment schedule, level payment, present value", LOAN)], ["Loan: calculate_fixed_payment_amount, generate_payment_schedule with and without extra payments, present_value"],
     CONF + "Exhaustive small loans are model-checked: balance never negative, principal adds up, level payment repays.",
     "TLA+ loan specification, TLC model checking and trace validation")

prop("P18", "A portfolio is worth its cash plus quantity times each asset's value",
     """The present value of a portfolio on a discount curve (or on a yield curve with its adjustments) is its cash plus the sum over its entries of quantity times the value of what the entry's holder receives, whatever the order, sign or repetition of entries, and is refused
     when an asset cannot be valued. Entries appear, index and iterate in the order given, from the start on every iteration. The portfolio's key rates are one per distinct last payment date, in date order, each linked to its neighbours, and its risk ladder on a yield curve has for each the portfolio's value change for that key rate's one-basis-point hat.""",
     ["inputs", "histories"], "all portfolios of cash flows, bonds and swaps, cash positions, curves, appended entries and interleaved iteration",
     "The tests value one portfolio of two bonds.",
     [PORT, YC, RM], [("entries, value, key rates", PORT), ("risk ladder", YC)], ["Portfolio: assets, cash_amount, iteration, present_value, to_key_rate_collection", "YieldCurve.present_value, calculate_pv01_risk_ladder of a portfolio"],
     CONF, "TLA+ portfolio specification, TLC trace validation of operation histories")

prop("P19", "Optimised portfolios are feasible and no feasible one is better",
     """The minimum-variance portfolio for a target return has weights that sum to one, meets the return, has no short positions unless they are allowed, and its variance is that of the best such portfolio; the maximum-utility portfolio likewise attains the best
     mean minus half risk-aversion times variance (aversion being wealth times the parameter). The efficient frontier lists, from the lower return in steps of the increment up to the upper one, each minimum-variance portfolio with its volatility. The Sharpe ratio is the excess return over volatility.
     No calculation changes means or covariances.""",
     ["inputs"], "all mean vectors and positive-definite covariance matrices, targets between the smallest and largest mean (any, with short positions), risk aversions, increments",
     "The tests solve one three-asset market.",
     [POPT], [("constrained minimisation", POPT)], ["PortfolioOptimizer: find_minimum_variance_portfolio, find_maximum_utility_portfolio, calculate_efficient_frontier, sharpe_ratio"],
     CONF + "The optimum is computed exactly by the specification (best of the Kuhn-Tucker points over all supports); iterative results are compared by objective to a thousandth.",
     "TLA+ exact mean-variance specification, TLC trace validation")

ST = "stochastics/"
BM = ST + "brownian_motion.py"
BP = ST + "base_processes.py"
GBM = ST + "geometric_brownian_motion.py"
SR = ST + "short_rate_models/base_short_rate_model.py"
AFF = ST + "short_rate_models/affine_yield_curve_models/"
VAS = AFF + "vasicek_model.py"

prop("P20", "Brownian paths are reproducible correlated Gaussian sums on the exact time grid",
     """The time grid runs from the motion's start in steps of the increment and ends exactly at its end. The increments of a step are L z sqrt(dt): dt the step's day-count length, L the lower Cholesky factor of the correlation matrix, z independent standard normal draws that depend on
     the seed, the dimension and the number of steps only (not on earlier calls, other objects or the global random state) and differ from seed to seed; without a seed the draws differ from call to call. The path starts at zero and adds up the increments; it is kept only when asked to, until another is kept, and its value at a time is the one at the
     grid point or the linear interpolation in day-count time of the neighbouring grid points' - refused before the start, after the end and while there is no path.""",
     ["inputs", "histories", "configurations"], "all starts, ends, increments, dimensions, correlations, day counts, seeds, and sequences of generating, keeping and asking",
     "The tests look at shapes and one seeded path; correlated, uneven and interpolated ones are not covered.",
     [BM], [("grid, increments, path, evaluation", BM)], ["BrownianMotion: generate_increments, generate_path, __call__, path, start/end, dimension"],
     CONF + "Draws of a seed are learnt by the specification from an uncorrelated motion of equal steps. The path calculus is model-checked for all choices of a few draws; every short sequence of operations is enumerated by TLC and replayed. Unit variance, correlation and independence of draws: five standard errors on long paths.",
     "TLA+ path specification, TLC model checking, TLC-generated behaviours replayed and traces validated")

prop("P21", "Diffusion paths take Euler steps in every coordinate along Brownian increments",
     """A diffusion path starts at the starting value given and each step adds, to every coordinate at once, its drift at the current time and state times the step's length plus its diffusion row at the current time and state times the Brownian increments of the step. Coordinates are in the order of the collection, whatever the number of Brownian
     dimensions. Paths are reproducible by seed; a path is kept only when asked to, until another is kept or the increment is changed (then there is none), and its value at a time is interpolated on the grid it was generated on, whatever other grids the Brownian motion has been used for since; the starting value given is not changed.""",
     ["inputs", "histories", "configurations"], "all drift and diffusion functions affine in state and time, dimensions, motions, increments, starting values, and sequences of operations",
     "The tests check one-dimensional processes with a fixed seed.",
     [BP, BM], [("Euler scheme, keeping, evaluation", BP)], ["DiffusionProcess: generate_path, __call__, path, set_dt, dimension, start/end"],
     CONF + "The Euler recursion is model-checked against exact solutions; every short sequence of operations is enumerated by TLC and replayed.",
     "TLA+ path specification, TLC model checking, TLC-generated behaviours replayed and traces validated")

prop("P22", "Geometric Brownian paths step multiplicatively from the starting value",
     """A geometric Brownian path starts at the starting value (one for all coordinates, or one for each) and each step multiplies every coordinate by 1 + drift times the step's length + volatility times the coordinate's correlated Brownian increment. It has the increment and correlation it was built with, is reproducible by seed and kept only when asked to;
     the starting value given is not changed. The drift-diffusion pair it is built on gives the same steps in a diffusion process.""",
     ["inputs", "histories"], "all drifts, volatilities, correlations, dimensions, increments, starting values and seeds",
     "The tests check one seeded path in one dimension.",
     [GBM, BM], [("multiplicative steps", GBM)], ["GeometricBrownianMotion.generate_path, path; geometric_brownian_motion_drift_diffusion"],
     CONF, "TLA+ path specification, TLC trace validation")

prop("P23", "Short rates, their integrals and discount curves all belong to the kept path",
     """The short-rate path is the transformation of the state variables' path at every grid point, and the rate at a time that of the interpolated state variables. The integrated path is zero at the first of the times given (by default the path's own grid, to its end) and adds, for each pair of neighbouring times, the average of the two rates times the
     day-count time between them, whatever the rates' signs; the accrual and discount curves hold exp(+integral) and exp(-integral) at those times, linear between them, and are refused outside; the discount curve refers to the motion's start and carries the index asked for. All of them are refused without a path; keeping another path or changing the increment drops the old path's integral and curve, which are otherwise
     those last generated. A model given new parameters follows them from the next path on.""",
     ["inputs", "histories", "configurations"], "all state-variable processes and (affine or quadratic) transformations, times, signs of rates, and sequences of operations",
     "The tests check a constant and a linear rate path.",
     [SR, VAS, BP], [("rates, integral, curves", SR), ("one-factor model", VAS)], ["ShortRateModel, VasicekModel: generate_path, __call__, generate_integrated_path, accrual_curve, create_discount_curve, set_dt, path, integrated_path, discount_curve"],
     CONF + "The integral calculus is model-checked; every short sequence of operations is enumerated by TLC and replayed.",
     "TLA+ path specification, TLC model checking, TLC-generated behaviours replayed and traces validated")

prop("P24", "One-factor Vasicek prices, yields, forwards and moments follow from its dynamics",
     """For dr = k(m - r)dt + s dW and every purchase date (the model's start unless given) and later maturity: the zero-coupon bond price is exp(A + B r) with r the path's rate on the purchase date, B = -(1 - e^(-k t))/k and A the corresponding intercept, t the day-count time; it is one at the purchase date. Yields are minus log price over t;
     the instantaneous forward rate is minus the slope of the log price in maturity and its volatility s e^(-k t); expected short rate, its average up to maturity, short-rate variance, yield volatility, price convexities (minus half the price times t squared times squared yield volatility, one for each maturity of any iterable) and yield convexity
     (yield less average expected rate, with its limit -s^2/2k^2) are those of the same dynamics. What needs the rate is refused without a path or outside it, yields at the purchase date itself are refused; parameters set from the calibration dictionary take effect at once.""",
     ["inputs", "histories", "configurations"], "all parameters, day counts, paths, purchase dates, maturities and sequences of asking, regenerating and changing parameters",
     "The tests compare a few values with formulas at the start date.",
     [VAS, SR], [("prices, yields, forwards, moments", VAS)],
     ["VasicekModel: zero_coupon_bond_price, zero_coupon_(bond_)yield, yield_convexity, price_convexities, yield_volatility, instantaneous_forward_rate(_volatility), expected_short_rate, average_expected_short_rate, short_rate_variance, convexity_limit, set_*_from_dict"],
     CONF + "The specification derives prices from matrix exponentials; that they solve the pricing equations, compose over time and leave no arbitrage is model-checked for a set of models.",
     "TLA+ affine-model specification, TLC model checking and trace validation")

prop("P25", "Multi-factor Gaussian models price consistently with their state dynamics",
     """For dX = K(theta - X)dt + S dW and r = mu + g.X (K with real, distinct, positive eigenvalues) and every purchase date and later maturity: bond prices, yields, their volatilities and covariances, instantaneous forward rates with theirs, derivatives of prices in state and maturity, price and yield convexities, and means, averages and covariances of states and
     short rate are those of these dynamics from the path's state on the purchase date. Weights of a riskless portfolio sum to one and leave no exposure to any state variable; its convexity is half the sum of weight times price times the squared volatility of each bond. The doubly and trebly mean-reverting models and the one with a stochastic market price of risk
     are the ones their definitions (each rate reverting to the next, correlated shocks) make of their parameters, both in their paths and in their prices, also when built or changed from a calibration dictionary. What needs the state is refused without a path or outside it; what needs a later maturity is refused at the purchase date.""",
     ["inputs", "histories", "configurations"], "all models, paths, purchase dates, (lists and iterators of) maturities and sequences of asking, regenerating and changing parameters",
     "The tests check two- and three-factor models at the start date with fixed parameters.",
     [VAS, AFF + "doubly_mean_reverting_vasicek.py", AFF + "trebly_mean_reverting_vasicek.py", AFF + "stochastic_market_price_of_risk.py", SR],
     [("general model", VAS), ("doubly mean-reverting", AFF + "doubly_mean_reverting_vasicek.py"), ("trebly mean-reverting", AFF + "trebly_mean_reverting_vasicek.py"), ("stochastic market price of risk", AFF + "stochastic_market_price_of_risk.py")],
     ["MultivariateVasicekModel and its subclasses: every pricing, moment and portfolio method; from_volatility_shape_parameters, set_*_from_dict"],
     CONF + "The specification derives everything from matrix exponentials (no eigenvalues); that prices solve the pricing equations, compose over time and leave no arbitrage is model-checked for a set of models.",
     "TLA+ affine-model specification, TLC model checking and trace validation")

prop("P26", "A one-month future settles at the time-weighted average of the month's rates",
     """The settlement rate of a one-month future is the average of the overnight rate over the business days of its delivery month (by its holiday calendar), each weighted by its accrual length (the contract's day count) to the next business day of that month; it covers no day of another month, whatever the month,
     the year and the purchase date. The contract reports the terms it was made with.""",
     ["inputs", "configurations"], "all delivery months and years, holiday calendars, day counts and rate functions",
     "The tests check one month.",
     [FUT, SCHED], [("settlement rate", FUT)], ["OneMonthSofrFuture.calculate_settlement_rate"], CONF,
     "TLA+ futures specification, TLC trace validation")

prop("P27", "Simulated default times follow the hazard rate, step by step, up to maturity",
     """Every simulated name defaults, independently of the others, at the first of the times dt, 2dt, 3dt, ... before maturity at which it draws a default, the probability of one at time t being the hazard rate at t times dt: never while that is not positive, surely as soon as it is one or more. There is one
     default time for each of the names asked for (a thousand in steps of a hundredth of a year unless said otherwise), and none - not a number - for a name that reaches maturity.""",
     ["inputs"], "all hazard rates (constant, changing, increasing, zero, negative, above one per step), steps, maturities and numbers of names",
     "The tests have no default model.",
     ["curves/credit_curves/default_models.py"], [("simulated default times", "curves/credit_curves/default_models.py")], ["default_bernoulli_paths"],
     CONF, "TLA+ default process specification, TLC model checking and trace validation")

prop("P28", "Two-stage calibration keeps the best fit found, stage by stage",
     """Calibrating a one-factor or doubly mean-reverting model first fits its volatility parameters to yield volatilities (shape and state staying as given), then its shape and state parameters to zero-coupon bond prices (volatility parameters staying as fitted). Each stage starts from the model's own parameters, reports the root of the
     summed squared errors at its optimum, leaves the model (and its calibration dictionary) at that optimum, and never fits worse than it started - from far off, better. The calibrated model is of the same kind, span and increment, holds those parameters, starts from the fitted state and prices accordingly. The order of the market inputs is irrelevant.""",
     ["inputs", "histories"], "all markets produced by such models (with or without noise), starting parameters well inside the unit interval, and sequences of stages on one calibrator",
     "The tests have no calibrator that completes.",
     ["stochastics/calibrators/factorized_calibrator.py", AFF + "doubly_mean_reverting_vasicek.py", VAS], [("two stages", "stochastics/calibrators/factorized_calibrator.py")],
     ["VolatilityFactorizedCalibrator: calibrate_volatility_parameters, calibrate_shape_state_variable_parameters, calibrate; from_volatility_shape_parameters"],
     CONF + "The search itself (any candidates in any order, stage by stage) is model-checked.", "TLA+ calibration specification, TLC model checking and trace validation")
