From 55a04931773176722245942adf2773728a5efeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 01/60] fix: business days account for holidays observed in the
 neighbouring year

---
 fixedIncome/src/scheduling_tools/scheduler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..cf8266a 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -4,7 +4,7 @@ An object for
 Unit tests are contained in fixedIncome.tests.test_scheduling_tools.test_scheduler.py
 """
 
-from datetime import date, datetime, timedelta
+from datetime import date, datetime, timedelta, MAXYEAR, MINYEAR
 from dateutil.relativedelta import relativedelta
 import pandas as pd  # type: ignore
 from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays
@@ -100,8 +100,10 @@ class Scheduler(object):
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        # a holiday at a year's boundary may be observed in the neighbouring year, e.g. New Year's of a
+        # year starting on a Saturday is observed on December 31st of the preceding year.
+        not_holiday = date_obj not in generate_all_holidays(from_year=max(year - 1, MINYEAR),
+                                                            to_year=min(year + 1, MAXYEAR),
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From ca876db84f937a838d895209e1e73f6f9fd05e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 02/60] fix: schedule dates are multiples of the increment from
 the start date

---
 fixedIncome/src/scheduling_tools/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index cf8266a..f841c43 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -146,16 +146,17 @@ class Scheduler(object):
             raise TypeError(f'Increment of type {type(increment)} is not a valid increment. '
                             f'Only timedelta and relativedelta are allowed.')
 
+        # dates are multiples of the increment from the start date, so month-end clipping does not accumulate
         if positive_delta:
             while date_obj <= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + increment * count
         else:  # increment is a negative amount of time
             while date_obj >= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + increment * count
 
         return dates
 
-- 
2.43.0


From 563a14156da3de91a0a948cb6aeea7f7d60b66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/60] fix: 30/360 day count uses the actual last day of
 February

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..685bba6 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -1,3 +1,4 @@
+import calendar
 from datetime import date, datetime, timedelta, time
 from typing import Callable
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
@@ -146,8 +147,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and (start_day == calendar.monthrange(start_year, 2)[1])
+        end_date_last_day_in_feb = (end_month == 2) and (end_day == calendar.monthrange(end_year, 2)[1])
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From ca7719dfc768dca35c8bb87377fd7455d480d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/60] fix: accruals between datetimes agree with those
 between dates at midnight

---
 .../scheduling_tools/day_count_calculator.py  | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 685bba6..97aeadc 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -16,6 +16,15 @@ class DayCountCalculator(object):
         total_seconds = time_delta.total_seconds()
         return total_seconds / DayCountCalculator.SECONDS_PER_YEAR
 
+    @staticmethod
+    def _split_datetime(date_obj: date | datetime) -> tuple[date, float]:
+        """ Splits a date or datetime into its date and the fraction of the day which has passed. """
+        if not isinstance(date_obj, datetime):
+            return date_obj, 0.0
+
+        midnight = datetime.combine(date_obj.date(), time(0))
+        return date_obj.date(), (date_obj - midnight) / timedelta(1)
+
     @staticmethod
     def include_datetimes(date_count_function) -> Callable[[date | datetime], float]:
         """
@@ -30,29 +39,20 @@ class DayCountCalculator(object):
                 return date_count_function(start_datetime, end_datetime)
 
             else:
-                start_outer_date = start_datetime.date() if type(start_datetime) == datetime else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if type(end_datetime) == datetime else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if type(start_datetime) == datetime else start_datetime
-                end_inner_date = end_datetime.date() if type(end_datetime) == datetime else end_datetime
-
-                start_datetime = start_datetime if type(start_datetime) == datetime else datetime.combine(start_datetime, time(0))
-                end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
-                                                                                                        time(0))
-
-                inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
-
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
+                start_date, start_fraction = DayCountCalculator._split_datetime(start_datetime)
+                end_date, end_fraction = DayCountCalculator._split_datetime(end_datetime)
+                next_start_date, next_end_date = start_date + timedelta(1), end_date + timedelta(1)
 
-                start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
-                end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
+                if start_date == end_date:  # a portion of a single day
+                    return (end_fraction - start_fraction) * date_count_function(start_date, next_start_date)
 
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
+                # interpolate linearly between the accruals at the midnights around each timestamp
+                accrual = (1 - end_fraction) * date_count_function(start_date, end_date) \
+                    + end_fraction * date_count_function(start_date, next_end_date)
+                next_accrual = (1 - end_fraction) * date_count_function(next_start_date, end_date) \
+                    + end_fraction * date_count_function(next_start_date, next_end_date)
 
-            return inner_accrual + accrual_difference * linear_scaling
+            return (1 - start_fraction) * accrual + start_fraction * next_accrual
 
         return increment_from_seconds
 
-- 
2.43.0


From 6abf9147904c40d97c202f274587a51f4dd9bfff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 05/60] fix: adjustment past the last knot is evaluated at the
 requested date

---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From c64d7a0403a0d9a2a652d92f0008bc01b6343db4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 06/60] fix: quote adjustments of a yield curve are applied to
 its knot values

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..2b9a963 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -42,8 +42,10 @@ class YieldCurve(Curve):
         self._interpolation_values = [instrument.to_knot_value_pair() for instrument in instruments]
 
         #TODO: Consider logging the adjustments
-        for kv_pair, quote_adjustment in zip(self.interpolation_values, quote_adjustments):
-            kv_pair.value += quote_adjustment
+        for index, quote_adjustment in enumerate(quote_adjustments[:len(instruments)]):
+            kv_pair = self._interpolation_values[index]
+            self._interpolation_values[index] = KnotValuePair(knot=kv_pair.knot,
+                                                              value=kv_pair.value + quote_adjustment.value)
 
         super().__init__(self.interpolation_values,
                          interpolation_method,
-- 
2.43.0


From 0661ab261d01ef1fd7c5f77e0267a887b6eb5ab8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 07/60] fix: discount curves given out by a yield curve do not
 change later

---
 .../src/curves/yield_curves/yield_curve.py    | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 2b9a963..12e88a3 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -84,17 +84,14 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                # a new object every time: a discount curve already given out does not change
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=self.interpolation_method,
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -111,17 +108,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
-- 
2.43.0


From 8d38951ad7bb18943f6838d90d09d589af511482 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 08/60] fix: risk calculations leave the bump value of the key
 rate as it was

---
 .../src/curves/yield_curves/yield_curve.py      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 12e88a3..dac388a 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -128,15 +128,18 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
-        key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
-        key_rate.set_bump_val(-ONE_BASIS_POINT/2)
-        pv_with_negative_adjustment = self.present_value(assets, key_rate)
+        original_bump_val = key_rate.bump_val
 
-        key_rate.create_adjustment_function()
-        key_rate.set_bump_val(ONE_BASIS_POINT / 2)
-        pv_with_positive_adjustment = self.present_value(assets, key_rate)
+        try:
+            key_rate.set_bump_val(-ONE_BASIS_POINT/2)
+            pv_with_negative_adjustment = self.present_value(assets, key_rate)
+
+            key_rate.set_bump_val(ONE_BASIS_POINT / 2)
+            pv_with_positive_adjustment = self.present_value(assets, key_rate)
+
+        finally:
+            key_rate.set_bump_val(original_bump_val)  # reset key rate bump value
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 2c214aec8b030926bb68c9b8fac7cf5c0caf0620 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 09/60] fix: bootstrapping solves the knots in order and keeps
 each solution

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index dac388a..7baa7e3 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -311,7 +311,8 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        # one knot after the other, so the instruments follow the order of the knots
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
@@ -333,7 +334,7 @@ class YieldCurveFactory(object):
             PV of an instrument computed on the yield curve and the target value.
             """
             knot_date = yield_curve_obj.interpolation_values[index].knot
-            new_knot_value = KnotValuePair(knot=knot_date, value=float(knot_value))
+            new_knot_value = KnotValuePair(knot=knot_date, value=np.asarray(knot_value).item())
             yield_curve_obj.reset_interpolation_value(new_value=new_knot_value, index=index)
 
             return yield_curve_obj.present_value(instrument) - target
@@ -346,10 +347,8 @@ class YieldCurveFactory(object):
                                                        tol=1e-10)
 
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
-                                          value=float(convergence_solution['x']))
-
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+                                          value=float(convergence_solution['x'].item()))
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From 400a1a1f9f812314922d6497a6e1cf303cc3c046 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 10/60] fix: a yield curve may be constructed from any iterable
 of instruments

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 7baa7e3..4a0fca7 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -270,6 +270,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From c5e6cc4660cfd9cd649861f8a37eb1a1673ace14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 11/60] fix: a lone key rate adjusts every date by its bump
 value

---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..8154090 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From 0c048f453cf37d7b0373183ca5b6fb5b6fa0a256 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 12/60] fix: the first, last or only key rate of a collection
 can be replaced

---
 fixedIncome/src/risk/key_rate.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8154090..1da898c 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -302,12 +302,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -317,7 +316,6 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly less than {next_date} when new KeyRate object would be '
                                      f'first in the collection.')
 
-
             case prior_date, None:  # last key rate index
                 if new_key_rate.key_rate_date > prior_date:
                     self.key_rates[key] = new_key_rate
@@ -326,11 +324,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 26b85859a9f25a097ad49d194ad1b2c435ab4b12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 13/60] fix: key rates added to a collection in place are kept
 in order

---
 fixedIncome/src/risk/key_rate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 1da898c..e5d7250 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -347,7 +347,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
         """ Inerts a Key Rate into the collection. """
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
@@ -403,7 +403,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """
         try:
             other_kr_dates = set(key_rate for key_rate in other)
-            all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
+            all_kr_dates = sorted(set(kr_date for kr_date in self) | other_kr_dates)
             self.key_rates = all_kr_dates
             self._create_combined_adjustment_function()
             return self
-- 
2.43.0


From 67e8c9c93c8dac64fa353ef9bdb0200bd33189bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 14/60] fix: a refused removal leaves the key rate collection
 as it was

---
 fixedIncome/src/risk/key_rate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index e5d7250..fd8d89c 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -341,7 +341,13 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
+        remaining_key_rates = list(self.key_rates)
+        del remaining_key_rates[key]
+
+        if not remaining_key_rates:
+            raise ValueError('Cannot remove every KeyRate object from a KeyRateCollection.')
+
+        self.key_rates = remaining_key_rates
         self._create_combined_adjustment_function()
 
     def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-- 
2.43.0


From d21661cb9f7abfa2aa70c1d5c216a46ae8e6dbda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 15/60] fix: slices and sums of key rate collections leave the
 originals alone

---
 fixedIncome/src/risk/key_rate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index fd8d89c..b459563 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import MutableSequence
+import copy
 import operator
 import bisect
 from datetime import date
@@ -288,7 +289,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """  Retrieves a KeyRateCollection or KeyRate object from the collection via indexing. """
         if isinstance(key, slice):
             cls = type(self)
-            return cls(self.key_rates[key])
+            return cls(copy.copy(key_rate) for key_rate in self.key_rates[key])  # the originals keep their dates
 
         index = operator.index(key)
         return self.key_rates[index]
@@ -397,7 +398,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         if isinstance(other, KeyRateCollection):
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            return KeyRateCollection(all_kr_dates)
+            return KeyRateCollection(copy.copy(key_rate) for key_rate in all_kr_dates)  # the originals keep their dates
         else:
             return NotImplemented
 
-- 
2.43.0


From 65046381209c48cffbf1303da8f60c22934950a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 16/60] fix: a refused addition leaves the key rate collection
 as it was

---
 fixedIncome/src/risk/key_rate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index b459563..8d401e4 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -411,8 +411,14 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = sorted(set(kr_date for kr_date in self) | other_kr_dates)
+            original_key_rates = self.key_rates
             self.key_rates = all_kr_dates
-            self._create_combined_adjustment_function()
+            try:
+                self._create_combined_adjustment_function()
+            except ValueError:  # e.g. two different key rates at one date
+                self.key_rates = original_key_rates
+                self._create_combined_adjustment_function()
+                raise
             return self
 
         except TypeError:
-- 
2.43.0


From 81dbfff0a987892f7fe12d050c73c2694f6f8f7c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 17/60] fix: membership of a risk in a risk ladder

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From 4ff38984178648cd850012f24576717365a3f5ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 18/60] fix: accrued interest runs from the last coupon before
 the settlement date asked for

---
 fixedIncome/src/assets/credit/corporate_bond.py       | 11 ++++++-----
 .../us_treasury_instruments.py                        |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..a943bd0 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -271,10 +271,10 @@ class FixedRateBond(CashflowCollection):
             return 0.0
 
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
-                                                                                                                  settlement_convention=self.settlement_convention,
+                                                                                                                  settlement_convention=self._settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -284,13 +284,14 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # a coupon falling on the settlement date is still received by the buyer, so it is the following one
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..db3dac5 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,14 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # a coupon falling on the settlement date is still received by the buyer, so it is the following one
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From 254c893af917fcca0ab93541b5d3367f0e82f185 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 19/60] fix: payments received follow the bond's settlement
 convention

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 +++-
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index a943bd0..e9fc5dd 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -155,7 +155,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self._settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index db3dac5..48d4a23 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -243,7 +243,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
-- 
2.43.0


From c6cab6ea3fc8028d6e0bf68db36380325479940a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 20/60] fix: full price, yield and Macaulay duration are those
 of the reference date asked for

---
 fixedIncome/src/assets/credit/corporate_bond.py | 17 +++++++----------
 .../us_treasury_instruments.py                  | 13 +++++--------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index e9fc5dd..707c165 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -308,17 +308,14 @@ class FixedRateBond(CashflowCollection):
         price.) Which is equal to the clean market price plus the amount
         of accrued interest.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.accrued_interest if reference_date is None \
+            else self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def discount_cashflows_by_fixed_rate(self, fixed_rate: float | np.ndarray, reference_date: Optional[date] = None) -> float:
         """
@@ -399,7 +396,7 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
@@ -407,14 +404,14 @@ class FixedRateBond(CashflowCollection):
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 48d4a23..bf2561f 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -185,17 +185,14 @@ class UsTreasuryBond(CashflowCollection):
         price.) Which is equal to the clean market price plus the amount
         of accrued interest.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.accrued_interest if reference_date is None \
+            else self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def calculate_dated_date(self) -> date:
         """
@@ -344,7 +341,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From e7e708cc1a75628b5856dbf3be58a5fdaaa2ea84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 21/60] fix: duration and convexity scale with the principal,
 and convexity computes

---
 fixedIncome/src/assets/credit/corporate_bond.py           | 8 ++++----
 .../us_treasury_instruments/us_treasury_instruments.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 707c165..8e9fa9c 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -422,7 +422,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -431,10 +431,10 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index bf2561f..067a532 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -370,7 +370,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -378,10 +378,10 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From 04e0da51fd66ba08edd4ef0cb915d932c77dfd96 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 22/60] fix: cashflow collections can be iterated

---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..e0dbb9e 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From 6b324b2192dec22c3360e1fcccce221ed2c149d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 23/60] fix: replacing a cashflow of a collection replaces it
 in the list of cashflows

---
 fixedIncome/src/assets/base_cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index e0dbb9e..ad6461f 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -138,6 +138,7 @@ class CashflowCollection(Set):
         Method to put a new cashflow into the Cashflow collection based on key.
         """
         if cashflow_key in self.cashflows:
+            self.cashflow_list[self.keys.index(cashflow_key)] = new_cashflow
             self.cashflows[cashflow_key] = new_cashflow
         else:
             self.cashflow_list.append(new_cashflow)
-- 
2.43.0


From b25d050e453582623195952b1ac226624dc1c2de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 24/60] fix: end-of-month loan payments are on the last days of
 the months

---
 fixedIncome/src/assets/credit/loan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..a9ff68b 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -78,7 +78,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
+                _, last_day = calendar.monthrange(start_date.year, start_date.month)
                 start_date = date(start_date.year, start_date.month, last_day)
 
             case PaymentTime.START_OF_MONTH:
@@ -103,6 +103,10 @@ class Loan(CashflowCollection):
             case _:
                 raise ValueError(f'{self._payment_frequency} is not a valid payment frequency for a loan.')
 
+        if self._payment_time == PaymentTime.END_OF_MONTH:  # every payment is on the last day of its month
+            payment_increment += relativedelta(day=31)
+            end_date += relativedelta(day=31)
+
         payment_date = start_date
         while payment_date <= end_date:
             payment_dates.append(payment_date)
-- 
2.43.0


From 74a0a095def640a458c124878dd185233a70065d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 25/60] fix: loan payments include the extra payment

---
 fixedIncome/src/assets/credit/loan.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index a9ff68b..eb3d4ab 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -114,7 +114,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
@@ -138,10 +138,9 @@ class Loan(CashflowCollection):
 
             if remaining_principal <= principal_payment_amount:
                 principal_payment_amount = remaining_principal
-                payment_amount = principal_payment_amount + interest_payment
 
             payments.append(
-                LoanPayment(payment_date=ed, payment=payment_amount,
+                LoanPayment(payment_date=ed, payment=principal_payment_amount + interest_payment,
                             principal_payment=principal_payment_amount,
                             interest_payment=interest_payment
                             )
-- 
2.43.0


From 83e1370f315de12b3a1c419c9255a861b7527e26 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 26/60] fix: level payment of an interest-free loan

---
 fixedIncome/src/assets/credit/loan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index eb3d4ab..10d82f9 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -59,6 +59,9 @@ class Loan(CashflowCollection):
             self._origination_date, self._end_date, dcc=self._day_count_convention
         )
 
+        if self._interest_rate == 0:
+            return self.principal / (length_in_years * self._payment_frequency.value)
+
         compound_factor = (1+self._interest_rate/self._payment_frequency.value)**(length_in_years * self._payment_frequency.value)
         numerator = self.principal * compound_factor
         denominator = (1 - compound_factor)/(-self._interest_rate / self._payment_frequency.value)
-- 
2.43.0


From 64ee0d2eaa5468f715583e7e699caac2a5f90181 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 27/60] fix: present value of a loan's level payments

---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 10d82f9..468671e 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -194,8 +194,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return Cashflow(payments).present_value(discount_curve)
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From 4655bdc7323e6cfcb5cd8dd95f1d00097ee1dbe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 28/60] fix: swap legs accrue from the start of the swap

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 155e0d5..2fd934b 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -252,6 +252,9 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
         unadjusted_accrual_dates.reverse()
+        if unadjusted_accrual_dates[0] != self.start_accrual_date:  # a first period shorter than the increment
+            unadjusted_accrual_dates.insert(0, self.start_accrual_date)
+
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         swap_accruals = []
 
@@ -291,6 +294,9 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
         unadjusted_accrual_dates.reverse()
+        if unadjusted_accrual_dates[0] != self.start_accrual_date:  # a first period shorter than the increment
+            unadjusted_accrual_dates.insert(0, self.start_accrual_date)
+
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         fixed_leg_accruals = []
 
-- 
2.43.0


From 6b2359b010134a21013b95b8476c3d23d5742d92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 29/60] fix: the implied rate of a swap ignores past payments
 on both legs

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 2fd934b..8137516 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -366,7 +366,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                self.payment_delay,
                                                                self.holiday_calendar)
 
-            discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
+            if payment_date >= discount_curve.reference_date:  # as in the present value of the floating leg
+                discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
 
         return float_pv / discounted_fixed_accruals
 
-- 
2.43.0


From 7d95680a515bb55058e32517818051126d15fde5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 30/60] fix: the settlement rate of a one month future runs
 over its delivery month

---
 .../src/assets/rates/linear_rates/interest_rate_future.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_future.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_future.py
index e8ec486..c4beaf0 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_future.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_future.py
@@ -7,6 +7,7 @@ Unit tests contained in tests/test_assets/test_rates/test_linear_rates/test_inte
 from typing import Callable
 from datetime import date
 from enum import Enum
+import calendar
 import itertools
 
 
@@ -103,8 +104,10 @@ class OneMonthSofrFuture(InterestRateFuture):
         """
         Calculates the settlement rate
         """
-        first_day_of_month = date()
-        last_day_of_month = date()
+        month = self.delivery_month.value
+        _, number_of_days = calendar.monthrange(self.delivery_year, month)
+        first_day_of_month = date(self.delivery_year, month, 1)
+        last_day_of_month = date(self.delivery_year, month, number_of_days)
         month_business_days = Scheduler.generate_business_days(start_date=first_day_of_month,
                                                                end_date=last_day_of_month,
                                                                holiday_calendar=self.holiday_calendar)
-- 
2.43.0


From 774f5f5c72065ee7990b0e69a8d3ca83fec5c1a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 31/60] fix: assets of a portfolio with the same last date
 share their key rate

---
 fixedIncome/src/portfolio/base_portfolio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..23d47ac 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -49,8 +49,8 @@ class Portfolio:
         Takes a portfolio and returns a KeyRateCollection, where each
         asset in the portfolio has a corresponding KeyRate in the collection.
         """
-        kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+        key_rates = {KeyRate(day_count_convention=day_count_convention,
+                             key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self}
 
-        return KeyRateCollection(kr_list)
+        return KeyRateCollection(key_rates)
 
-- 
2.43.0


From ebde995d0f24bb565eb37114e4e3c25ddb08c6b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 32/60] fix: paths are interpolated towards the nearer grid
 point

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From d10825d3648a8016372ee269856c572898f6ff75 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 33/60] fix: a Brownian path set is evaluated on its own grid

---
 fixedIncome/src/stochastics/brownian_motion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..d4235ad 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -82,6 +82,7 @@ class BrownianMotion(Callable):
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
         self._datetimes = None
+        self._path_datetimes = None  # the grid of the path which is set
         self._dt_increments = None
         self.day_count_convention = day_count_convention
 
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From db2efadd0c6c00c291f5aa022b2eb150641cbeba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 34/60] fix: a diffusion path set is evaluated on its own grid

---
 fixedIncome/src/stochastics/base_processes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..321685d 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None  # the grid of the path which is set
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -109,6 +110,7 @@ class DiffusionProcess(abc.Callable):
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
-- 
2.43.0


From d21934d9ed8a5318937feb4bb5952c2bd4d14a15 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 35/60] fix: a diffusion path has one row per state variable

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 321685d..6590b0b 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -91,7 +91,7 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
         current_val = copy.deepcopy(starting_value)
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
-- 
2.43.0


From 47c4c34ce65a65d486d9f2dbd677ead5b4c1d4d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 36/60] fix: diffusion paths may start from integers, lists and
 scalars

---
 fixedIncome/src/stochastics/base_processes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 6590b0b..b59dd31 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -7,7 +7,6 @@ from datetime import datetime, timedelta
 from dateutil.relativedelta import relativedelta
 from typing import Optional, NamedTuple, Callable
 import numpy as np
-import copy
 from fixedIncome.src.stochastics.brownian_motion import BrownianMotion, datetime_to_path_call
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 
@@ -92,7 +91,7 @@ class DiffusionProcess(abc.Callable):
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
-        current_val = copy.deepcopy(starting_value)
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
             solution[:, index] = current_val
@@ -104,7 +103,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
-- 
2.43.0


From 1709e3ec761c4a602c280d63d2f19786242a8f62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 37/60] fix: geometric Brownian motion may start from a scalar

---
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..c8e961e 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From 627f5ad89a3596cdbbeccb8af3f63a9fd08ae5ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 38/60] fix: short rate paths are returned, and set only when
 asked to

---
 .../base_short_rate_model.py                  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..c27ddf5 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,15 +62,20 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_variables_path = self.state_variables_diffusion_process.generate_path(
+            starting_value=starting_state_space_values,
+            set_path=set_path,
+            seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        path_length = state_variables_path.shape[1]
+        short_rate_path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            short_rate_path[index] = self.short_rate_transformation(state_variables_path[:, index])
+
+        if set_path:
+            self._path = short_rate_path
+
+        return short_rate_path
 
 
     def _reset_paths_and_curves(self) -> None:
-- 
2.43.0


From ed433bd186483fded2b1a21085772e01e00f717d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 39/60] fix: integrals and curves of an old short rate path or
 increment are dropped

---
 .../short_rate_models/base_short_rate_model.py    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index c27ddf5..c817845 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -73,6 +73,7 @@ class ShortRateModel(DiffusionProcess):
             short_rate_path[index] = self.short_rate_transformation(state_variables_path[:, index])
 
         if set_path:
+            self._reset_integrals_and_curves()  # those of the old path are no longer valid
             self._path = short_rate_path
 
         return short_rate_path
@@ -82,7 +83,19 @@ class ShortRateModel(DiffusionProcess):
         """
         Helper function to set all the paths to None.
         """
-        super()._reset_paths_and_curves()  # set the underlying state variable paths to None
+        super()._reset_paths_and_curves()
+        self.state_variables_diffusion_process._reset_paths_and_curves()  # set the underlying state variable paths to None
+        self._reset_integrals_and_curves()
+
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt, also for the underlying state variables. """
+        super().set_dt(new_dt)
+        self.state_variables_diffusion_process.set_dt(new_dt)
+
+    def _reset_integrals_and_curves(self) -> None:
+        """
+        Helper function to set everything computed from the short rate path to None.
+        """
         self._short_rate_path = None
         self._integrated_path = None
         self._continuously_compounded_accrual_path = None
-- 
2.43.0


From b7439b0cc54ff8d0e279ef04b19eed40a9f945b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 40/60] fix: the integral of the short rate accrues each step
 over its own length

---
 .../stochastics/short_rate_models/base_short_rate_model.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index c817845..8b5518c 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -117,7 +117,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
+        old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
@@ -125,7 +125,7 @@ class ShortRateModel(DiffusionProcess):
             min_rate, max_rate = min(start_rate, end_rate), max(start_rate, end_rate)
             new_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, end_dt, self.day_count_convention)
             accrual = new_time_accrual - old_time_accrual
-
+            old_time_accrual = new_time_accrual
 
             if min_rate < 0:
                 next_trapezoid_val = max_rate * accrual + (min_rate - max_rate) * accrual / 2
-- 
2.43.0


From ea396e89ca319de7dc34f238c6b4337af015cb8f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 41/60] fix: accrual and discount curves integrate the short
 rate over the datetimes asked for

---
 .../short_rate_models/base_short_rate_model.py        | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 8b5518c..2be71d7 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -155,12 +155,10 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+        self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
@@ -186,8 +184,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From 27f37837d9d077375e985991ec0b49a793d732d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 42/60] fix: the short rate of the one-dimensional Vasicek
 model is a number

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..2af6909 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
         self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-- 
2.43.0


From 6e4f8697ed9c6b4d432087e6361ed6440f4d394c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 43/60] fix: integrals of the short rate run up to the end of
 its path by default

---
 .../short_rate_models/base_short_rate_model.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2be71d7..b22fd3a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -110,12 +110,8 @@ class ShortRateModel(DiffusionProcess):
             raise ValueError("Path is currently None. First generate a sample path of spot rates.")
 
         start_date_time = self.brownian_motion.start_date_time
-        end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = list(self.state_variables_diffusion_process._path_datetimes)  # up to the end of the path
         running_integral = 0.0
         old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
@@ -148,12 +144,8 @@ class ShortRateModel(DiffusionProcess):
             raise ValueError("Path is currently None. First generate a sample path of spot rates.")
 
         start_date_time = self.brownian_motion.start_date_time
-        end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = list(self.state_variables_diffusion_process._path_datetimes)  # up to the end of the path
 
         self.generate_integrated_path(datetimes)
 
@@ -177,12 +169,8 @@ class ShortRateModel(DiffusionProcess):
             raise ValueError("Path is currently None. First generate a sample path of spot rates.")
 
         start_date_time = self.brownian_motion.start_date_time
-        end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = list(self.state_variables_diffusion_process._path_datetimes)  # up to the end of the path
 
         self.generate_integrated_path(datetimes)
 
-- 
2.43.0


From 865dfc6e6abc08a41338d12e6fbd742dea2609df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 44/60] fix: Vasicek prices and yields are those at the
 purchase date

---
 .../vasicek_model.py                          | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 2af6909..8e68ed2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -229,7 +232,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
@@ -243,7 +246,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
@@ -282,20 +285,23 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self, maturity_date: date | datetime, purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From 41a37a08decff5188680fc59098c689d9b8b2b6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 45/60] fix: covariance of the state variables for coupled
 reversion

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 8e68ed2..1bbdc3c 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -541,9 +541,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
         covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        return self.reversion_matrix_eigenvectors @ covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From de2ca475524b32b97f1f9d1f1fe8b8ac9e197897 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 46/60] fix: derivative of the bond price coefficients for
 coupled reversion

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 1bbdc3c..65ef71e 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -924,7 +924,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From 27b0ac2810977cc18280258fa61796ca918a878b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 47/60] fix: forward rate covariances of any iterable of
 maturities

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 65ef71e..914f646 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -844,11 +844,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From 3d6919b5674b9d720420f5adecb737146fd3af6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 48/60] fix: the Vasicek model can be plotted

---
 .../short_rate_models/affine_yield_curve_models/vasicek_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 914f646..7da573b 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -21,6 +21,7 @@ from fixedIncome.src.stochastics.base_processes import DriftDiffusionPair
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.affine_model_mixin import AffineModelMixin
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
+from fixedIncome.src.scheduling_tools.scheduler import Scheduler
 
 
 class CalibrationParamterType(Enum):
-- 
2.43.0


From 81f05d223f84d53bba8bd600104b65d2eb9458ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 49/60] fix: multi-factor Vasicek models without calibration
 parameters can be created

---
 .../affine_yield_curve_models/vasicek_model.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 7da573b..8e43ce3 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -5,7 +5,6 @@ Reference, *Fixed Income Securities, 4th Ed.* by Tuckman and Serrat, page 205.
 Unit tests are contained in
 fixedIncome.tests.test_stochastics.test_short_rate_models.test_affine_yield_curve_models.test_vasicek_model.py
 """
-from abc import abstractmethod
 import itertools
 import math
 from datetime import datetime, date, timedelta
@@ -448,27 +447,28 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             state_variables_diffusion_process=diffusion_process
         )
 
+    # The models which can be calibrated override the following; the others are still models to generate and price with.
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError(f'{type(self).__name__} has no calibration parameters.')
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no calibration parameters.')
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no calibration parameters.')
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no calibration parameters.')
 
 
     def expected_state_variable_mean(self,
-- 
2.43.0


From 957ce9a54975ec068800a3aaf6668cad61a2520a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 50/60] fix: the factorized calibrator can be used outside its
 own script

---
 fixedIncome/src/stochastics/calibrators/factorized_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 3344fae..47c49b5 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -16,6 +16,7 @@ from typing import Iterable, NamedTuple
 from datetime import date
 import numpy as np
 from scipy.optimize import minimize
+from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel, CalibrationParamterType
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
 
-- 
2.43.0


From a16c10d48b5e87220bb51f489c6aef3971ab3e67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 51/60] fix: yield volatilities of matured bonds are refused

---
 .../affine_yield_curve_models/vasicek_model.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 8e43ce3..78d1a1c 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -796,10 +796,10 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if min(maturity_dates) <= purchase_date:
-        #    raise ValueError(f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
-
         maturity_dates = list(maturity_dates)
+        if min(maturity_dates) <= purchase_date:
+            raise ValueError(f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
+
         beta_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
@@ -815,8 +815,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if maturity_date <= purchase_date:
-        #    raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if maturity_date <= purchase_date:
+            raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         covar_mat = self.yield_covariance_matrix(maturity_dates=[maturity_date], purchase_date=purchase_date)
         return math.sqrt(float(covar_mat))
-- 
2.43.0


From d39bbaa0f73c93c01225a34387cec65d50031e8e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 52/60] fix: parameters set from the calibration dictionary
 change the Vasicek model

---
 .../affine_yield_curve_models/vasicek_model.py  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 78d1a1c..3628121 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -91,8 +91,6 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
-        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-
         self.parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self._volatility, self._reversion_speed],
             CalibrationParamterType.SHAPE: [self._long_term_mean],
@@ -110,6 +108,10 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def volatility(self) -> float:
         return self._volatility
 
+    @property
+    def convexity_limit(self) -> float:
+        return -self.volatility**2 / (2 * self.reversion_speed**2)
+
     @property
     def calibrated_starting_short_rate(self) -> float:
         return self._calibrated_starting_short_rate
@@ -120,17 +122,26 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._update_drift_diffusion()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._update_drift_diffusion()
+
+    def _update_drift_diffusion(self) -> None:
+        """ Has the paths generated from now on follow the current parameters. """
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
 
-- 
2.43.0


From 810410380509c2bb992ea68c6cae45fdf327a3d1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 53/60] fix: parameters set from the calibration dictionary
 change the doubly mean-reverting model

---
 .../doubly_mean_reverting_vasicek.py          | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 7477410..9a71f68 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -120,11 +120,34 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
         self.short_rate_reversion_speed = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][2]
         self.short_rate_volatility = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][3]
         self.short_rate_long_term_correlation = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][4]
+        self._update_dynamics()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         self.long_term_mean = self.parameter_calibration_dict[CalibrationParamterType.SHAPE][0]
+        self._update_dynamics()
+
+    def _update_dynamics(self) -> None:
+        """ Recomputes what the model derives from its parameters. """
+        updated_model = DoublyMeanRevertingVasicek(
+            short_rate_reversion_speed=self.short_rate_reversion_speed,
+            short_rate_volatility=self.short_rate_volatility,
+            long_term_mean=self.long_term_mean,
+            long_term_reversion_speed=self.long_term_reversion_speed,
+            long_term_volatility=self.long_term_volatility,
+            short_rate_long_term_correlation=self.short_rate_long_term_correlation,
+            start_datetime=self.start_date_time,
+            end_datetime=self.end_date_time,
+            dt=self.dt)
+
+        for name in ('variance_mat', 'reversion_level', 'reversion_matrix', 'volatility_matrix', 'C_mat',
+                     'reversion_matrix_eigenvalues', 'reversion_matrix_eigenvectors',
+                     'reversion_matrix_eigenvectors_inv'):
+            setattr(self, name, getattr(updated_model, name))
+
+        self.drift_diffusion_collection.update(updated_model.drift_diffusion_collection)
+
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-- 
2.43.0


From 610f3b8bae5c0a648987949cc30fa5a7c333013e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 54/60] fix: a refused reset of the interpolation values leaves
 the curve as it was

---
 fixedIncome/src/curves/base_curve.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..54e3c5b 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -130,14 +130,27 @@ class Curve(Callable):
         """
         Resets the interpolator based on new KnotValuePairs.
         """
-        self._interpolation_values = sorted(list(new_values), key=lambda interp_val: interp_val.knot)
-        self._create_interpolation_object()
+        self._set_interpolation_values(sorted(list(new_values), key=lambda interp_val: interp_val.knot))
 
     def reset_interpolation_value(self, new_value: KnotValuePair, index: int) -> None:
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
-        self._interpolation_values[index] = new_value
-        self._create_interpolation_object()
+        new_values = list(self._interpolation_values)
+        new_values[index] = new_value
+        self._set_interpolation_values(new_values)
+
+    def _set_interpolation_values(self, new_values: list[KnotValuePair]) -> None:
+        """
+        Replaces the interpolation values together with the interpolator.
+        Values which cannot be interpolated are refused and leave the curve as it was.
+        """
+        original_values = self._interpolation_values
+        self._interpolation_values = new_values
+        try:
+            self._create_interpolation_object()
+        except ValueError:
+            self._interpolation_values = original_values
+            raise
 
 
 
-- 
2.43.0


From 4287a31957db6db904698f0f1bbbaddb880a6978 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 55/60] fix: minimum variance and maximum utility portfolios of
 assets with small variances

---
 fixedIncome/src/portfolio/portfolio_optimization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a83a0f0..7701f02 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -2,6 +2,9 @@ import numpy as np
 from scipy.optimize import minimize
 from typing import Optional
 
+# variances of daily or monthly returns are small, so improvements of them are too
+SOLVER_OPTIONS = {'ftol': 1e-14, 'maxiter': 1000}
+
 
 class PortfolioOptimizer:
     def __init__(self, mean_vector: np, covariance_mat: np.array) -> None:
@@ -61,7 +64,8 @@ class PortfolioOptimizer:
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                             bounds=bounds,
                            constraints=constraints,
-                           method='SLSQP')
+                           method='SLSQP',
+                           options=SOLVER_OPTIONS)
         return results['x']
 
 
@@ -137,7 +141,8 @@ class PortfolioOptimizer:
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
-                           constraints=constraints, bounds=bounds, method='SLSQP')
+                           constraints=constraints, bounds=bounds, method='SLSQP',
+                           options=SOLVER_OPTIONS)
 
         return results['x']
 
-- 
2.43.0


From ce31db5e81b75ca4cad7892ca34cb317ac013529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 56/60] fix: the one-factor model's zero-coupon bond yield was
 None

---
 .../affine_yield_curve_models/vasicek_model.py            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3628121..426c08f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -263,6 +263,14 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return yield_value
 
+    def zero_coupon_bond_yield(self,
+                               maturity_date: date | datetime,
+                               purchase_date: Optional[date | datetime] = None) -> float:
+        """
+        Overrides the abstract class method.
+        """
+        return self.zero_coupon_yield(maturity_date, purchase_date)
+
     def yield_convexity(self, maturity_date: date | datetime) -> float:
         """
         Calculates the theoretical convexity of the Vasicek Model in yield terms. I.e., it calculates
-- 
2.43.0


From 8c3dd958f7bbeb9aa61f5009a859fe535face623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 57/60] fix: a doubly mean-reverting model keeps the calibrated
 starting state, instead of uninitialised memory

---
 .../doubly_mean_reverting_vasicek.py                         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 9a71f68..ec95e66 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -42,7 +42,7 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
         self.long_term_volatility = long_term_volatility
         self.short_rate_long_term_correlation = short_rate_long_term_correlation
 
-        self.starting_state_variables = np.empty((2, ))
+        self.starting_state_variables = np.zeros((2, ))
 
         reversion_level = np.array([self.long_term_mean, self.long_term_mean])
 
@@ -106,6 +106,9 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
             set_path=True,
             seed=seed
         )
+        new_model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES] = \
+            list(new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES])
+        new_model.set_state_variables_from_dict()
         return new_model
 
     @property
-- 
2.43.0


From c8030c8c82b33a54b359a73e30b177a5844354fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 58/60] fix: one-factor Vasicek models can be built from
 calibration parameters, as the calibrator needs

---
 .../vasicek_model.py                          | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 426c08f..d5cf437 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -78,7 +78,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         self._long_term_mean = reversion_level
         self._reversion_speed = reversion_speed
         self._volatility = volatility
-        self.calibrated_starting_state_variables = np.empty(shape=(1,))
+        self.calibrated_starting_state_variables = np.zeros(shape=(1,))
 
         self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
                                                             reversion_scale=self.reversion_speed,
@@ -97,6 +97,29 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
             CalibrationParamterType.STATE_VARIABLES: self.calibrated_starting_state_variables,
         }
 
+    @classmethod
+    def from_volatility_shape_parameters(
+            cls,
+            new_param_calibration_dict: dict[CalibrationParamterType: list],
+            start_datetime: date | datetime,
+            end_datetime: date | datetime,
+            dt: timedelta | relativedelta = relativedelta(hours=1),
+            seed: int = 1) -> 'VasicekModel':
+        """
+        Creates the model of the calibration parameters, with a path from the calibrated starting short rate.
+        """
+        volatility, reversion_speed = new_param_calibration_dict[CalibrationParamterType.VOLATILITY]
+        starting_state_variables = new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
+        new_model = cls(reversion_level=new_param_calibration_dict[CalibrationParamterType.SHAPE][0],
+                        reversion_speed=reversion_speed,
+                        volatility=volatility,
+                        brownian_motion=BrownianMotion(start_date_time=start_datetime, end_date_time=end_datetime),
+                        dt=dt)
+        new_model.generate_path(starting_state_space_values=starting_state_variables, set_path=True, seed=seed)
+        new_model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES] = list(starting_state_variables)
+        new_model.set_state_variables_from_dict()
+        return new_model
+
     @property
     def long_term_mean(self) -> float:
         return self._long_term_mean
-- 
2.43.0


From 7c0f00dbc01a8afa43a7f17c539ffc84b8423abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 59/60] fix: two-stage calibration starts from the model's
 parameters, stays off the singular bounds and keeps its optimum

---
 .../calibrators/factorized_calibrator.py      | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 47c49b5..4c528de 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -74,10 +74,10 @@ class VolatilityFactorizedCalibrator:
                 model.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][index] =\
                     volatility_params[index]
 
-            new_model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(model.parameter_calibration_dict,
-                                                                                    start_datetime=model.start_date_time,
-                                                                                    end_datetime=model.end_date_time,
-                                                                                    dt=model.dt)
+            new_model = type(model).from_volatility_shape_parameters(model.parameter_calibration_dict,
+                                                                     start_datetime=model.start_date_time,
+                                                                     end_datetime=model.end_date_time,
+                                                                     dt=model.dt)
 
             predicted_volatilities = (new_model.yield_volatility(vol_input.maturity_date)
                                       for vol_input in self.volatility_inputs)
@@ -86,15 +86,17 @@ class VolatilityFactorizedCalibrator:
                        for accrual, pred_vol, actual_vol in zip(vol_accruals, predicted_volatilities, self.volatility_inputs)))
             return error
 
-        initial_volatility_params = np.array([0.01 for _ in range(len(model_vol_params))])
+        initial_volatility_params = np.array(model_vol_params, dtype=float)
 
         vol_min_result = minimize(fun=volatility_loss_function,
                                   #method='Nelder-Mead',
                                   x0=initial_volatility_params,
                                   tol=1E-5,
-                                  bounds=[(0.0, 1.0) for _ in range(len(initial_volatility_params))],
+                                  bounds=[(1E-4, 1.0 - 1E-4) for _ in range(len(initial_volatility_params))],
                                   options={'disp': True}
                                   )
+        model_vol_params[:] = vol_min_result.x  # rather than those tried last
+        model.set_volatiltiy_parameters_from_dict()
         return vol_min_result
 
 
@@ -118,10 +120,10 @@ class VolatilityFactorizedCalibrator:
                 model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES][index] = \
                     price_and_state_params[index+len(model_shape_params)]
 
-            new_model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(model.parameter_calibration_dict,
-                                                                                    start_datetime=model.start_date_time,
-                                                                                    end_datetime=model.end_date_time,
-                                                                                    dt=model.dt)
+            new_model = type(model).from_volatility_shape_parameters(model.parameter_calibration_dict,
+                                                                     start_datetime=model.start_date_time,
+                                                                     end_datetime=model.end_date_time,
+                                                                     dt=model.dt)
 
             predicted_prices = (new_model.zero_coupon_bond_price(price_input.maturity_date)
                                       for price_input in self.price_inputs)
@@ -130,7 +132,7 @@ class VolatilityFactorizedCalibrator:
                        for accrual, pred_price, actual_price in zip(price_accruals, predicted_prices, self.price_inputs)))
             return error
 
-        initial_shape_state_params = np.array([0.01 for _ in range(len(model_shape_params) + len(model_state_params))])
+        initial_shape_state_params = np.array([*model_shape_params, *model_state_params], dtype=float)
 
         price_min_result = minimize(fun=price_loss_function,
                                   #method='Nelder-Mead',
@@ -139,6 +141,10 @@ class VolatilityFactorizedCalibrator:
                                   bounds=[(0.0, 1.0) for _ in range(len(initial_shape_state_params))],
                                   options={'disp': True}
                                   )
+        model_shape_params[:] = price_min_result.x[:len(model_shape_params)]  # rather than those tried last
+        model_state_params[:] = price_min_result.x[len(model_shape_params):]
+        model.set_shape_parameters_from_dict()
+        model.set_state_variables_from_dict()
         return price_min_result
 
     def calibrate(self, model: MultivariateVasicekModel | VasicekModel) -> None:
@@ -148,7 +154,7 @@ class VolatilityFactorizedCalibrator:
 
         vol_min_result = self.calibrate_volatility_parameters(model)
 
-        vol_calibrated_model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(
+        vol_calibrated_model = type(model).from_volatility_shape_parameters(
             model.parameter_calibration_dict,
             start_datetime=model.start_date_time,
             end_datetime=model.end_date_time,
@@ -156,7 +162,7 @@ class VolatilityFactorizedCalibrator:
 
         price_min_result = self.calibrate_shape_state_variable_parameters(vol_calibrated_model)
 
-        calibrated_model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(
+        calibrated_model = type(model).from_volatility_shape_parameters(
             vol_calibrated_model.parameter_calibration_dict,
             start_datetime=vol_calibrated_model.start_date_time,
             end_datetime=vol_calibrated_model.end_date_time,
-- 
2.43.0


From 51b9512018b25e90926326962a2c9a69004a4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 60/60] fix: the yield to maturity is found however far the
 price is from par

The search over the rate could step below minus one per period, where nothing can be discounted, and fail.
It now runs over the growth per period.
---
 fixedIncome/src/assets/credit/corporate_bond.py        | 10 +++++++---
 .../us_treasury_instruments/us_treasury_instruments.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 8e9fa9c..c4d9800 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -363,14 +363,18 @@ class FixedRateBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
         target_price = full_price * self.principal / 100
-        def diff_from_full_price(fixed_rate) -> np.array:
-            return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
+        def fixed_rate_of(log_growth) -> float:
+            """ The rate at which a unit grows by exp(log_growth) each period: every such rate can be discounted at. """
+            return self.num_payments_per_year * float(np.expm1(log_growth[0]))
+
+        def diff_from_full_price(log_growth) -> np.array:
+            return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate_of(log_growth), reference_date)])
 
         solution = scipy.optimize.root(diff_from_full_price,
                                        x0=np.array([0.0]),
                                        tol=1E-8)
 
-        return float(solution['x'])
+        return fixed_rate_of(solution['x'])
 
 
     def pv_deriv(self, offset: float = 0, ytm: Optional[float] = None) -> float:
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 067a532..5cb1db8 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -342,14 +342,18 @@ class UsTreasuryBond(CashflowCollection):
         full_price = self.get_full_price(reference_date)
 
         target_price = full_price * self.principal/100
-        def diff_from_full_price(fixed_rate) -> np.array:
-            return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
+        def fixed_rate_of(log_growth) -> float:
+            """ The rate at which a unit grows by exp(log_growth) each period: every such rate can be discounted at. """
+            return self.num_payments_per_year * float(np.expm1(log_growth[0]))
+
+        def diff_from_full_price(log_growth) -> np.array:
+            return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate_of(log_growth), reference_date)])
 
         solution = scipy.optimize.root(diff_from_full_price,
                                        x0=np.array([0.0]),
                                        tol=1E-8)
 
-        return float(solution['x'])
+        return fixed_rate_of(solution['x'])
 
     def pv_deriv(self, offset: float = 0, ytm: Optional[float] = None) -> float:
         """
-- 
2.43.0

