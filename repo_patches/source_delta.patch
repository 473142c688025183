From 14808b80b7b324ca1d29399845b4d0e80a530ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/65] fix: iterating a Curve raised TypeError since __iter__
 returned a list

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..d5bc7f4 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -268,7 +268,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From 948fad24fc712966e476b5b9c0c968824bbe4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 02/65] fix: from_dict of log interpolations consumed a
 generator twice

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..6bcc894 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From 9577850b66b2b049de04e2434f909b68889670a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 03/65] fix: log rate interpolations returned None at zero,
 should be exp(0)

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 6bcc894..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From e997726e419e89c3285d199fc653cf8e17d9183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 04/65] fix: log_linear_scheme could not be found by its name
 (as given in kwargs)

---
 dcf/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 0c1bcc3..816f918 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -577,9 +577,10 @@ constant_linear_constant = \
     _dyn_scheme(constant, linear, constant)
 linear_scheme = constant_linear_constant
 
-logconstant_loglinear_logconstant = \
+constant_loglinear_constant = \
     _dyn_scheme(constant, loglinear, constant)
-log_linear_scheme = logconstant_loglinear_logconstant
+logconstant_loglinear_logconstant = constant_loglinear_constant
+log_linear_scheme = constant_loglinear_constant
 
 logconstantrate_loglinearrate_logconstantrate = \
     _dyn_scheme(logconstantrate, loglinearrate, logconstantrate)
-- 
2.43.0


From b8fe3beba416e84da71fcd403afae08fbf1bd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 05/65] fix: domain of a DateCurve was left unsorted after
 inserting a date

---
 dcf/curves/curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d5bc7f4..0403e8b 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -450,9 +450,14 @@ class DateCurve(Curve):
         return self._domain[0] if self._domain else None
 
     def _update(self, domain, data):
+        # sort domain (as origin might be the first date of domain)
+        sorted_domain = sorted(domain)
+        if isinstance(domain, tuple):
+            sorted_domain = tuple(sorted_domain)
+        self._domain = sorted_domain
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
-        self._domain = domain
+        self._domain = sorted_domain
 
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
-- 
2.43.0


From 53b7625a96bdef117a99e63a173ecc23c244b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 06/65] fix: casting a DateCurve to a DateCurve mixed up dates
 and year fractions

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 0403e8b..f8e1b81 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -423,10 +423,10 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
-            day_count = day_count or data.kwargs.day_count
+        if isinstance(data, DateCurve):
+            interpolation = interpolation or data._interpolation
+            origin = data.origin if origin is None else origin
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
-- 
2.43.0


From 3566f92b306052dd16f658a181fd9fb9b990d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 07/65] fix: casting a RateCurve lost origin and replaced
 day_count by its name

---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index f8e1b81..3ead9a5 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -742,8 +742,8 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
-            day_count = day_count or other.kwargs.day_count
+            origin = other.origin if origin is None else origin
+            day_count = day_count or other._day_count
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From 1a8f92435466da809a9769d0bc03f6e9d9213456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 08/65] fix: Curve.shifted moved the grid but not the curve

---
 dcf/curves/curve.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 3ead9a5..0c39b41 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -316,6 +316,10 @@ class Curve(object):
         y_list = [self(x) / other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
+    def _copy(self, domain, data, **kwargs):
+        # curve of same type and settings but with new points
+        return self.__class__(domain, data, self._interpolation, **kwargs)
+
     def __str__(self):
         inner = tuple()
         if self.domain:
@@ -348,9 +352,7 @@ class Curve(object):
             x_list = [x + delta for x in self.domain]
         else:
             x_list = self.domain
-        # y_list = self(self.domain)
-        # return self.__class__(x_list, y_list, self.interpolation)
-        return self.__class__(x_list, self)
+        return self._copy(x_list, self(self.domain))
 
 
 class DateCurve(Curve):
@@ -466,6 +468,10 @@ class DateCurve(Curve):
             return self.fixings[x]
         return super(DateCurve, self).__call__(self.day_count(x))
 
+    def _copy(self, domain, data, **kwargs):
+        kwargs.setdefault('origin', self._origin)
+        return super()._copy(domain, data, day_count=self._day_count, **kwargs)
+
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
@@ -756,6 +762,10 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def _copy(self, domain, data, **kwargs):
+        return super()._copy(domain, data, forward_tenor=self._forward_tenor,
+                             **kwargs)
+
     def __add__(self, other):
         new = super(RateCurve, self).__add__(self.__class__(other))
         return self.__class__(new, forward_tenor=self._forward_tenor)
-- 
2.43.0


From b9d55749a2e7020cfeb06112c976e80583f43593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 09/65] fix: arithmetic of DateCurves lost origin and
 day_count, division failed

---
 dcf/curves/curve.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 0c39b41..ee90c01 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -291,17 +291,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -309,7 +309,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
@@ -473,31 +473,20 @@ class DateCurve(Curve):
         return super()._copy(domain, data, day_count=self._day_count, **kwargs)
 
     def __add__(self, other):
-        new = super(DateCurve, self).__add__(
-            other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        new = super(DateCurve, self).__add__(other)
+        return self._copy(new.domain, new(new.domain), origin=self.origin)
 
     def __sub__(self, other):
-        new = super(DateCurve, self).__sub__(
-            other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        new = super(DateCurve, self).__sub__(other)
+        return self._copy(new.domain, new(new.domain), origin=self.origin)
 
     def __mul__(self, other):
-        new = super(DateCurve, self).__mul__(
-            other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        new = super(DateCurve, self).__mul__(other)
+        return self._copy(new.domain, new(new.domain), origin=self.origin)
 
     def __div__(self, other):
-        new = super(DateCurve, self).__div__(
-            other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        new = super(DateCurve, self).__div__(other)
+        return self._copy(new.domain, new(new.domain), origin=self.origin)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 768c035887f5d03a934ec1a701007460718a93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 10/65] fix: setting a curve value made spread and fixings part
 of the curve data

---
 dcf/curves/curve.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index ee90c01..7489005 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -155,7 +155,7 @@ class Curve(object):
         """ returns constructor arguments as ordered dictionary """
         kw = type(self.__class__.__name__ + 'Kwargs', (OrderedDict,), {})()
         for name in signature(self.__class__).parameters:
-            attr = self(self.domain) if name == 'data' else None
+            attr = self._values() if name == 'data' else None
             attr = getattr(self, '_' + name, attr)
             attr = getattr(attr, '__name__', attr)
             if attr is not None:
@@ -277,7 +277,7 @@ class Curve(object):
 
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = list(self._values())
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -290,6 +290,10 @@ class Curve(object):
             return tuple(self(xx) for xx in x)
         return self._func(x)
 
+    def _values(self):
+        # stored curve values at domain, i.e. without fixings and spread
+        return tuple(self._func(x) for x in self.domain)
+
     def __add__(self, other):
         x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) + other(x) for x in x_list]
@@ -352,7 +356,7 @@ class Curve(object):
             x_list = [x + delta for x in self.domain]
         else:
             x_list = self.domain
-        return self._copy(x_list, self(self.domain))
+        return self._copy(x_list, self._values())
 
 
 class DateCurve(Curve):
@@ -468,6 +472,9 @@ class DateCurve(Curve):
             return self.fixings[x]
         return super(DateCurve, self).__call__(self.day_count(x))
 
+    def _values(self):
+        return tuple(self._func(self.day_count(x)) for x in self.domain)
+
     def _copy(self, domain, data, **kwargs):
         kwargs.setdefault('origin', self._origin)
         return super()._copy(domain, data, day_count=self._day_count, **kwargs)
-- 
2.43.0


From 0ea04b41bd4918904b1aeef616c0c7f41e9bfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 11/65] fix: kwargs of default probability curves gave survival
 probabilities

---
 dcf/curves/creditcurve.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..c1c3ceb 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -211,6 +211,16 @@ class DefaultProbabilityCurve(SurvivalProbabilityCurve):
                                                       interpolation, origin,
                                                       day_count, forward_tenor)
 
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = kw.data = tuple(1. - d for d in kw['data'])
+        return kw
+
+    def _copy(self, domain, data, **kwargs):
+        return super()._copy(domain, [1. - d for d in data], **kwargs)
+
 
 class FlatIntensityCurve(CreditCurve):
     r"""Credit curve storing and interpolating data as intensities
@@ -338,3 +348,13 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
             data = [1. - d for d in data]
         super(MarginalDefaultProbabilityCurve, self).__init__(
             domain, data, interpolation, origin, day_count, forward_tenor)
+
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = kw.data = tuple(1. - d for d in kw['data'])
+        return kw
+
+    def _copy(self, domain, data, **kwargs):
+        return super()._copy(domain, [1. - d for d in data], **kwargs)
-- 
2.43.0


From 56ed7056d6c3a8622063a7aebf0d7835b9575577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 12/65] fix: kwargs of forward curves lost yield curve resp.
 interest rate curves

---
 dcf/curves/curve.py | 7 ++++++-
 dcf/curves/fx.py    | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 7489005..144dedc 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -156,7 +156,7 @@ class Curve(object):
         kw = type(self.__class__.__name__ + 'Kwargs', (OrderedDict,), {})()
         for name in signature(self.__class__).parameters:
             attr = self._values() if name == 'data' else None
-            attr = getattr(self, '_' + name, attr)
+            attr = getattr(self, '_' + name, getattr(self, name, attr))
             attr = getattr(attr, '__name__', attr)
             if attr is not None:
                 kw[name] = attr
@@ -623,6 +623,7 @@ class ForwardCurve(DateCurve):
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
+        self._yield_curve = yield_curve
         self.yield_curve = yc
         """ yield curve for extrapolation using discount factors """
 
@@ -632,6 +633,10 @@ class ForwardCurve(DateCurve):
         else:
             return self.get_forward_price(x)
 
+    def _copy(self, domain, data, **kwargs):
+        kwargs.setdefault('yield_curve', self._yield_curve)
+        return super()._copy(domain, data, **kwargs)
+
     def get_forward_price(self, value_date):
         """ asset forward price at **value_date**
 
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..c8d8c30 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -27,6 +27,11 @@ class FxForwardCurve(ForwardCurve):
         self.domestic_curve = domestic_curve
         self.foreign_curve = foreign_curve
 
+    def _copy(self, domain, data, **kwargs):
+        return super(ForwardCurve, self)._copy(
+            domain, data, domestic_curve=self.domestic_curve,
+            foreign_curve=self.foreign_curve, **kwargs)
+
     def get_forward_price(self, value_date):
         last_date = self.domain[-1]
         if value_date <= last_date:
-- 
2.43.0


From c0e5bc60bb694662a44392cf1ab79d26ec9a4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 13/65] fix: get_swap_annuity paired each date with itself and
 gave always zero

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From d4add14edc00f25755e82fad440744e75a88b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 14/65] fix: CashRateCurve.get_cash_rate of other than forward
 tenor never returned

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From c65ff33acc1fb991d1f87dc4d249cdcb34552503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 15/65] fix: FlatIntensityCurve.get_flat_intensity used an
 undefined attribute

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index c1c3ceb..8b777bd 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -241,7 +241,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From 8bcc09b655d916fb6fa0532996450b9f6afa06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 16/65] fix: discount factors depended on identity instead of
 equality of origin

---
 dcf/curves/creditcurve.py       | 2 +-
 dcf/curves/interestratecurve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 8b777bd..98c453c 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -175,7 +175,7 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
         return curve.get_survival_prob(curve.origin, x)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..51f40f3 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -309,7 +309,7 @@ class DiscountFactorCurve(InterestRateCurve):
                                                   forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         return self(stop) / self(start)
 
-- 
2.43.0


From 1f3496ae9058f8589036abeb7ef74df2c514759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 17/65] fix: analytic gamma was derived from the expiry date
 instead of time to expiry

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..fbb1596 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
-- 
2.43.0


From df11cc2a23b1f8323a14cb86ada93076139b5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 18/65] fix: numerical vega was derived from the expiry date
 instead of time to expiry

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index fbb1596..91bf173 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
-- 
2.43.0


From a2b2478e311d265192db7711bea07c77d87fc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 19/65] fix: theta missed to divide by shift and used expiry
 date instead of time

---
 dcf/models/optionpricing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 91bf173..7018807 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -422,12 +422,13 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        theta *= scale / shift
+        return theta
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From b003d4e18b4c0d0c41e9ea5fa004038265065121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 20/65] fix: vega of log-normal option was not the derivative
 of the price

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From a7bcb6d23798cccfc06436d053b0a8374c23f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 21/65] fix: ContingentRateCashFlowList ignored an origin of
 zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 0010700daffeecadf3a56778adfa10ddcda96617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 22/65] fix: message on too many options raised TypeError

---
 dcf/cashflows/contingent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index b7148cc..477b4a2 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,8 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' %
+                           (len(put_strike_list) + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From 6ac2b767e7fc2799eb2505499ac32df75a6d1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 23/65] fix: annuity with zero rate raised ZeroDivisionError

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..c32c330 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -64,6 +64,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     Payment plan
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
+    if not fixed_rate:
+        return amortize(int(num), amount)
     q = 1. + fixed_rate
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
-- 
2.43.0


From dea6973aba55f63dcaf2eb6ad3234d8748ae23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 24/65] fix: OptionPricingFormula.from_function always raised
 TypeError

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 7018807..89ddab2 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': staticmethod(func)})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From 9017a81025c40ae9fa68770887fe69fabea8d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 25/65] fix: BinaryOptionPayOffModel ignored strike_shift

---
 dcf/models/optionpricing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 89ddab2..f2f4ff6 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -477,6 +477,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             valuation_date = valuation_date or pricing_formula.valuation_date
             forward_curve = forward_curve or pricing_formula.forward_curve
@@ -487,7 +488,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift or self.__class__.STRIKE_SHIFT
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From d5f9d834081346ec4965e01856f1d3575762404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 26/65] fix: put and intrinsic values of binary options were
 those of vanilla options

---
 dcf/models/bachelier.py     |  4 ++--
 dcf/models/black76.py       |  4 ++--
 dcf/models/intrinsic.py     |  4 ++--
 dcf/models/optionpricing.py | 38 ++++++++++++++++++++++++++++++++++++-
 4 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..8c9cd41 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -13,7 +13,7 @@
 from math import sqrt
 
 from .distibutions import normal_pdf, normal_cdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import OptionPayOffModel, BinaryPayOffModel
 
 
 class NormalOptionPayOffModel(OptionPayOffModel):
@@ -67,7 +67,7 @@ class NormalOptionPayOffModel(OptionPayOffModel):
         return sqrt(time) * normal_pdf(d)
 
 
-class BinaryNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryNormalOptionPayOffModel(BinaryPayOffModel):
     r""" Bachelier option pricing formula for binary calls
     (see also |NormalOptionPayOffModel()|)
 
diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..7d9c368 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -13,7 +13,7 @@
 from math import sqrt, log
 
 from .distibutions import normal_cdf, normal_pdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import OptionPayOffModel, BinaryPayOffModel
 
 
 class LogNormalOptionPayOffModel(OptionPayOffModel):
@@ -71,7 +71,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
         return forward * sqrt(time) * normal_pdf(d)
 
 
-class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryLogNormalOptionPayOffModel(BinaryPayOffModel):
     r""" Black 76 option pricing formula for binary calls
     (see also |LogNormalOptionPayOffModel()|)
 
diff --git a/dcf/models/intrinsic.py b/dcf/models/intrinsic.py
index ef6f531..024a208 100644
--- a/dcf/models/intrinsic.py
+++ b/dcf/models/intrinsic.py
@@ -10,7 +10,7 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
-from .optionpricing import OptionPayOffModel
+from .optionpricing import OptionPayOffModel, BinaryPayOffModel
 
 
 class IntrinsicOptionPayOffModel(OptionPayOffModel):
@@ -49,7 +49,7 @@ class IntrinsicOptionPayOffModel(OptionPayOffModel):
         return 0.0
 
 
-class BinaryIntrinsicOptionPayOffModel(OptionPayOffModel):
+class BinaryIntrinsicOptionPayOffModel(BinaryPayOffModel):
     r""" intrisic option pricing formula for binary call options
     (see also |IntrinsicOptionPayOffModel()|)
 
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f2f4ff6..856df60 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -444,7 +444,43 @@ class OptionPayOffModel(OptionPricingFormula):
         return self.get_call_theta(date, strike)
 
 
-class BinaryOptionPayOffModel(OptionPayOffModel):
+class BinaryPayOffModel(OptionPayOffModel):
+    r"""base option payoff model for binary (cash-or-nothing) options
+
+    Binary put options are derived from binary call options by
+    $$P_K(F(T)) = 1 - C_K(F(T))$$
+
+    """
+
+    def get_call_value(self, date, strike=None):
+        time, strike, fwd, vol = self._tsfv(date, strike)
+        if not vol or not time:
+            return 0.0 if fwd <= strike else 1.0
+        return self._call_price(time, strike, fwd, vol)
+
+    def get_put_value(self, date, strike=None):
+        return 1.0 - self.get_call_value(date, strike)
+
+    def get_call_delta(self, date, strike=None):
+        time, strike, fwd, vol = self._tsfv(date, strike)
+        if not vol or not time:
+            return 0.0
+        return super().get_call_delta(date, strike)
+
+    def get_put_delta(self, date, strike=None):
+        return -1.0 * self.get_call_delta(date, strike)
+
+    def get_put_gamma(self, date, strike=None):
+        return -1.0 * self.get_call_gamma(date, strike)
+
+    def get_put_vega(self, date, strike=None):
+        return -1.0 * self.get_call_vega(date, strike)
+
+    def get_put_theta(self, date, strike=None):
+        return -1.0 * self.get_call_theta(date, strike)
+
+
+class BinaryOptionPayOffModel(BinaryPayOffModel):
     STRIKE_SHIFT = 0.0001
     """finite difference to calculate binary option payoff as a call spread"""
 
-- 
2.43.0


From 604e27826bc53d5e7771a1e4910d6c708686d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 27/65] fix: gamma and vega of binary normal option were not
 those of the price

---
 dcf/models/bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index 8c9cd41..9bf748b 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(BinaryPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-\frac{d}{\sigma} \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(BinaryPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
-- 
2.43.0


From 64807bf7cb55b28678d06f8af645b317ba448247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 28/65] fix: price and vega of binary log-normal option did not
 fit delta and call spread

---
 dcf/models/black76.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 7d9c368..7b30605 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,21 @@ class BinaryLogNormalOptionPayOffModel(BinaryPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
-
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-\frac{d}{\sigma} \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +118,4 @@ class BinaryLogNormalOptionPayOffModel(BinaryPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
-- 
2.43.0


From 16c39cff0612e45a3e917bffe9ee69c1d7d9e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 29/65] fix: greeks of binary displaced log-normal option were
 not displaced

---
 dcf/models/displaced.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..21821fd 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,21 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(time,
+                                  strike + self.displacement,
+                                  forward + self.displacement,
+                                  volatility)
-- 
2.43.0


From 60ea0e70588983c80ea50d11e02819aeb1b4e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 30/65] fix: table of contingent and leg cashflow lists did not
 show the cashflows

---
 dcf/cashflows/cashflow.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..96f913a 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -31,15 +31,17 @@ class CashFlowList(object):
         for d in self.domain:
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
-                fwd = getattr(self, 'forward_curve', None)
-                details = payoff.details(fwd)
+                model = getattr(self, 'forward_curve', None)
+                model = getattr(self, 'payoff_model', model)
+                details = payoff.details(model)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-            table.append(tuple(details.get(h, '') for h in header))
+            table.append(details)
+        table = list(tuple(d.get(h, '') for h in header) for d in table)
         return [tuple(header)] + table
 
     @property
-- 
2.43.0


From 04d2f260b208a818b3f498aae4d14083fc619f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 31/65] fix: calling a CashFlowLegList gave zero cashflows

---
 dcf/cashflows/cashflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 96f913a..f9bb644 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -233,6 +233,11 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = tuple(leg(_) for leg in self._legs)
+        flows = list(sum(leg[d] for leg in legs) for d in self.domain)
+        return CashFlowList(self.domain, flows, self._origin)
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From 8bea49165d85e1826a66e10920465b3fc706bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 32/65] fix: interest accrued failed on contingent rates and
 exceeded the coupon

---
 dcf/pricer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..f98f6d8 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -281,10 +281,10 @@ def get_interest_accrued(cashflow_list, valuation_date):
         if valuation_date <= pay_date:
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
-                if cf.start < valuation_date:
+                if cf.start < valuation_date <= cf.end:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From 0df67488b67708c819292f2a2abe609a4edc95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 33/65] fix: bracketing never returned if precision is beyond
 float resolution

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index f98f6d8..7545808 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -44,6 +44,9 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     m = a + (b - a) * 0.5
     if abs(b - a) < precision and abs(fb - fa) < precision:
         return a, m, b
+    if m in (a, b):
+        # no float left in between
+        return a, m, b
 
     a, b = (m, b) if f(m) < 0 else (a, m)
     return _simple_bracketing(f, a, b, precision)
-- 
2.43.0


From b2d00e76dfd3cfb79c640c180a4c3d63d1803f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 34/65] fix: get_present_value failed without model and left
 its valuation date

---
 dcf/pricer.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 7545808..c5da8a0 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -97,23 +97,26 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
 
+    # store and set valuation date to payoff_model
+    payoff_model = getattr(cashflow_list, 'payoff_model', None)
+    has_valuation_date = hasattr(payoff_model, 'valuation_date')
+    if has_valuation_date:
+        model_valuation_date = payoff_model.valuation_date
+        payoff_model.valuation_date = valuation_date
+
+    try:
+        flows = cashflow_list[pay_dates]
+    finally:
+        # re-store model_valuation_date
+        if has_valuation_date:
+            payoff_model.valuation_date = model_valuation_date
+
     # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
     values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
-              for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
+              for t, a in zip(pay_dates, flows))
     return sum(values)
 
 
-- 
2.43.0


From 0e4be8f5cb09129caa82f11363f5f5287ba5137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 35/65] fix: pricer functions left bumped curves and rates
 behind on errors

---
 dcf/pricer.py | 80 +++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index c5da8a0..2483d9f 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -363,11 +363,11 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    # run bracketing and restore fixed rate
+    try:
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        cashflow_list.fixed_rate = fixed_rate
     return par
 
 
@@ -427,11 +427,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    bumped = list()
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+            bumped.append(d)
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in bumped:
+            d.spread = None
 
     return (sh - pv) / shift * .0001
 
@@ -574,11 +578,16 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        bumped = list()
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+                bumped.append(d)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d in bumped:
+                d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
@@ -723,23 +732,26 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
         fitting_curve.spread[d] = 0.0
 
     pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            # prepare products and prices
+            # todo: better use sensitivity to current curve point than maturity
+            filtered_pp_list = list(
+                p for p in pp_list if max(p[0].domain) <= d)
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From 8dd8da2206e995177200ef48a8d3e60ecfba2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 36/65] fix: default delta_grid was not the domain of the
 delta_curve

---
 dcf/pricer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 2483d9f..20dded3 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -557,7 +557,8 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    if not delta_grid:
+        delta_grid = getattr(delta_curve, 'domain', discount_curve.domain)
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
-- 
2.43.0


From f87d5fa8a38b2433ab18a0da142c1ce53e0d5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 37/65] fix: products on dates other than BusinessDate never
 returned

---
 dcf/cashflows/products.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..4fa539d 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,13 +39,10 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date < end_date - period * cnt:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
-        for d in payment_date_list:
-            if hasattr('adjust', d):
-                d.adjust(convention, holidays)
         return payment_date_list
 
 
-- 
2.43.0


From 998ee94bf5ca6aa3107411821639d1a2146817e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 38/65] fix: bond with tenor as end date paid back notional at
 no date

---
 dcf/cashflows/products.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 4fa539d..661ca6e 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -23,14 +23,19 @@ BOND_TENOR = 1
 SWAP_TENOR = 3 / 12
 
 
-def _interest_payment_dates(
-        start_date, end_date, period, convention, holidays):
+def _end_date(start_date, end_date):
     if bd and isinstance(start_date, bd.BusinessDate):
-        start_date = bd.BusinessDate(start_date)
         if bd.BusinessPeriod.is_businessperiod(end_date):
             end_date = start_date + bd.BusinessPeriod(end_date)
         end_date = bd.BusinessDate(end_date)
+    return end_date
+
 
+def _interest_payment_dates(
+        start_date, end_date, period, convention, holidays):
+    end_date = _end_date(start_date, end_date)
+    if bd and isinstance(start_date, bd.BusinessDate):
+        start_date = bd.BusinessDate(start_date)
         payment_date_list = bd.BusinessSchedule(
             start_date, end_date, period, end_date)
         payment_date_list.adjust(convention, holidays)
@@ -77,6 +82,7 @@ def bond(start_date=TODAY,
     :return: |CashFlowLegList|
 
     """
+    end_date = _end_date(start_date, end_date)
     interest_payment_date_list = _interest_payment_dates(
         start_date, end_date, period, convention, holidays)
 
-- 
2.43.0


From c106d3d9a306b84dcc626b5bc41e9b473536a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 39/65] fix: FxContainer mixed up curves of foreign to base
 currency pairs

---
 dcf/curves/fx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index c8d8c30..71156a4 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -170,8 +170,8 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
-- 
2.43.0


From 33722b551b3af88797f8fcee7f08b55eae804a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 40/65] fix: FxContainer kept stale cross rates when a currency
 was added again

---
 dcf/curves/fx.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 71156a4..8895d35 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -176,22 +176,16 @@ class FxContainer(dict):
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and d != foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 614b4de93e42605fd3113cf1ac6d7ac8c3d5a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 41/65] fix: rate_table failed on curves without origin or of a
 single point

---
 dcf/curves/curve.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 144dedc..a07154a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -74,11 +74,12 @@ def rate_table(curve, x_grid=None, y_grid=None):
     """  # noqa: E501
     if x_grid is None:
         x_grid = list(curve.domain)
-        if curve.origin not in x_grid:
-            x_grid = [curve.origin] + x_grid
+        origin = getattr(curve, 'origin', x_grid[0])
+        if origin not in x_grid:
+            x_grid = [origin] + x_grid
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
-        step = diff[0]
+        step = diff[0] if diff else x_grid[0] - x_grid[0]
         y_grid = [step * 0]
         for span in diff:
             line = [step]
@@ -92,9 +93,10 @@ def rate_table(curve, x_grid=None, y_grid=None):
     grid = list()
     grid.append(('',) + tuple(y_grid))
     for i, x in enumerate(x_grid):
-        lst = x_grid[i+1] if i < len(x_grid)-1 \
-            else x_grid[-1] + y_grid[-1] + y_grid[-1]
-        grid.append(((x,) + tuple(curve(x+y) for y in y_grid if x + y < lst)))
+        line = y_grid
+        if i < len(x_grid)-1:
+            line = (y for y in y_grid if x + y < x_grid[i+1])
+        grid.append(((x,) + tuple(curve(x+y) for y in line)))
 
     return grid
 
-- 
2.43.0


From aba9375d6841df36bf258933ecfad2880f93347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 42/65] fix: casting a VolatilityCurve with tuple domain raised
 TypeError

---
 dcf/curves/volatilitycurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..fa191b3 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in list(data.domain) + [origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From 13b92f954eb0fd95d251bf0c9e80c20952602565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 43/65] fix: arithmetic of rate curves lost the interpolation

---
 dcf/curves/curve.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index a07154a..a553622 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -770,20 +770,16 @@ class RateCurve(DateCurve):
                              **kwargs)
 
     def __add__(self, other):
-        new = super(RateCurve, self).__add__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        return super(RateCurve, self).__add__(self.__class__(other))
 
     def __sub__(self, other):
-        new = super(RateCurve, self).__sub__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        return super(RateCurve, self).__sub__(self.__class__(other))
 
     def __mul__(self, other):
-        new = super(RateCurve, self).__mul__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        return super(RateCurve, self).__mul__(self.__class__(other))
 
     def __div__(self, other):
-        new = super(RateCurve, self).__div__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        return super(RateCurve, self).__div__(self.__class__(other))
 
     def _get_compounding_factor(self, start, stop):
         # aka discount factor
-- 
2.43.0


From c1cd22dd523efc13d132a91450fe478d794836d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 44/65] fix: short and hazard rate of curves with a single
 point never returned

---
 dcf/curves/creditcurve.py       | 3 +++
 dcf/curves/interestratecurve.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 98c453c..09ef605 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -120,6 +120,9 @@ class CreditCurve(RateCurve):
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
 
+        if len(self.domain) == 1:
+            # no interval between points, so take the one from origin
+            return self.get_flat_intensity(self.origin, self.domain[0])
         if start < min(self.domain):
             return self.get_hazard_rate(min(self.domain))
         if max(self.domain) <= start:
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 51f40f3..ffc81aa 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,6 +143,9 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
+        if len(self.domain) == 1:
+            # no interval between points, so take the one from origin
+            return self.get_zero_rate(self.origin, self.domain[0])
         if start < min(self.domain):
             return self.get_short_rate(min(self.domain))
         if max(self.domain) <= start:
-- 
2.43.0


From b7f7dfe2409e2257566e351d3dcd20c52070a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 45/65] fix: forward price curve with integer yield raised
 TypeError

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index a553622..839991e 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -621,7 +621,7 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
+        if isinstance(yield_curve, (int, float)) and self.origin is not None:
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
-- 
2.43.0


From ec813dd54577540bc5268c9ddedb962f342f6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 46/65] fix: annuity with rate close to zero failed or missed
 the amount

---
 dcf/plans.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/plans.py b/dcf/plans.py
index c32c330..054e1da 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -10,6 +10,8 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
+from math import expm1, log1p
+
 DEFAULT_AMOUNT = 1.
 FIXED_RATE = 0.01
 
@@ -67,7 +69,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     if not fixed_rate:
         return amortize(int(num), amount)
     q = 1. + fixed_rate
-    a = amount * (q - 1) / (q ** int(num) - 1)
+    # avoid cancellation of q ** num - 1 for rates close to zero
+    a = amount * (fixed_rate / expm1(int(num) * log1p(fixed_rate)))
     return list(a * q ** i for i in range(int(num)))
 
 
-- 
2.43.0


From 07a15d1463fb4bbef1fb7ad2681da4637470a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 47/65] fix: pay offset moved the start of the first interest
 period off the origin

---
 dcf/cashflows/cashflow.py   | 3 ++-
 dcf/cashflows/contingent.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index f9bb644..651f368 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -344,7 +344,8 @@ class RateCashFlowList(CashFlowList):
         for s, e, a in zip(start_dates, payment_date_list, amount_list):
             if pay_offset:
                 e -= pay_offset
-                s -= pay_offset
+                if origin is None or payoff_list:
+                    s -= pay_offset
 
             payoff = RateCashFlowPayOff(
                 start=s, end=e, day_count=day_count,
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 477b4a2..0fed812 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -260,7 +260,8 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         for s, e, a in zip(start_dates, payment_date_list, amount_list):
             if pay_offset:
                 e -= pay_offset
-                s -= pay_offset
+                if origin is None or payoff_list:
+                    s -= pay_offset
 
             payoff = ContingentRateCashFlowPayOff(
                 start=s, end=e, day_count=day_count,
-- 
2.43.0


From c7c3985ed1fe8f97ad95d2bedc019378f2d1bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 48/65] fix: forward given as number zero raised TypeError
 resp. KeyError

---
 dcf/cashflows/payoffs.py    | 2 +-
 dcf/models/optionpricing.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..0ef249a 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -118,7 +118,7 @@ class RateCashFlowPayOff(CashFlowPayOff):
         }
 
         forward = 0.0
-        if forward_curve:
+        if forward_curve is not None:
             fixing_date = self.start
             if self.fixing_offset:
                 fixing_date -= self.fixing_offset
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 856df60..0adfbbd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -201,7 +201,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         details = {'valuation date': self.valuation_date}
         forward = 0.0
-        if self.forward_curve:
+        if self.forward_curve is not None:
             if hasattr(self.forward_curve, 'get_forward_price'):
                 forward = self.forward_curve.get_forward_price(date)
             elif hasattr(self.forward_curve, 'get_cash_rate'):
-- 
2.43.0


From 581555d1e09abaf23c8c3c388f59d18b957a3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 49/65] fix: BinaryOptionPayOffModel took zero arguments for
 missing ones

---
 dcf/models/optionpricing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 0adfbbd..a640e6a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -515,11 +515,14 @@ class BinaryOptionPayOffModel(BinaryPayOffModel):
         self._inner = pricing_formula
         self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
-            day_count = day_count or pricing_formula.day_count
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
+            if day_count is None:
+                day_count = pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
 
-- 
2.43.0


From cede7df0718178614be8ae894cf99d2471ad2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 50/65] fix: options past expiry raised ValueError instead of
 being intrinsic

---
 dcf/models/optionpricing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index a640e6a..f0a8464 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -253,7 +253,7 @@ class OptionPayOffModel(OptionPricingFormula):
 
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(fwd - strike, 0.0)
         return self._call_price(time, strike, fwd, vol)
 
@@ -269,7 +269,7 @@ class OptionPayOffModel(OptionPricingFormula):
         $$P_K(F(T)) = K - F(T) + C_K(F(T))$$
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(strike - fwd, 0.0)
         call = self._call_price(time, strike, fwd, vol)
         return strike - fwd + call  # put/call parity
@@ -288,7 +288,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0 if fwd < strike else 1.0 * scale  # cadlag
         if not self.bump_greeks:
             delta = self._call_delta(time, strike, fwd, vol)
@@ -334,7 +334,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             gamma = self._call_gamma(time, strike, fwd, vol)
@@ -377,7 +377,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.VEGA_SHIFT
         scale = self.__class__.VEGA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             vega = self._call_vega(time, strike, fwd, vol)
@@ -419,7 +419,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.THETA_SHIFT
         scale = self.__class__.THETA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             theta = self._call_theta(time, strike, fwd, vol)
@@ -454,7 +454,7 @@ class BinaryPayOffModel(OptionPayOffModel):
 
     def get_call_value(self, date, strike=None):
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0 if fwd <= strike else 1.0
         return self._call_price(time, strike, fwd, vol)
 
@@ -463,7 +463,7 @@ class BinaryPayOffModel(OptionPayOffModel):
 
     def get_call_delta(self, date, strike=None):
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         return super().get_call_delta(date, strike)
 
-- 
2.43.0


From 49dd609bc0deb216644367670a7567f238e445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 51/65] fix: interest accrued took remaining for elapsed year
 fraction of 30/360 like day counts

---
 dcf/pricer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 20dded3..76a422f 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -288,10 +288,10 @@ def get_interest_accrued(cashflow_list, valuation_date):
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
                 if cf.start < valuation_date <= cf.end:
-                    remaining = cf.day_count(valuation_date, cf.end)
+                    elapsed = cf.day_count(cf.start, valuation_date)
                     total = cf.day_count(cf.start, cf.end)
                     flow = cashflow_list[pay_date]
-                    ac += flow * (1. - remaining / total)
+                    ac += flow * elapsed / total
     return ac
 
 
-- 
2.43.0


From f225247b9accb55b7ab1894984ba4a12b64ed58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 52/65] fix: fitted values did not follow order of fitting grid

---
 dcf/pricer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 76a422f..0ed5f45 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -752,7 +752,8 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
             # run bracketing
             _simple_bracketing(err, *bounds, precision)
 
-        data = fitting_curve(fitting_curve.spread.domain)
+        # values in order of fitting_grid
+        data = fitting_curve(list(fitting_grid))
     finally:
         fitting_curve.spread = None
     return data
-- 
2.43.0


From d19dbbef3d36fe689ba2f4597d5c55d02436b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 53/65] fix: curve fit left a spread on the curve if it failed
 to set up

---
 dcf/pricer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 0ed5f45..78e6358 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -728,11 +728,12 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
         fitting_curve.domain if fitting_grid is None else fitting_grid
 
     # copy fitting_curve but set al values to 0.0
-    fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
+    spread = fitting_curve.__class__(fitting_grid, fitting_curve)
+    for d in spread.domain:
+        spread[d] = 0.0
 
     pp_list = tuple(zip(cashflow_list, present_value))
+    fitting_curve.spread = spread
     try:
         for d in fitting_curve.spread.domain:
             # prepare products and prices
-- 
2.43.0


From 902fa57e39d42255907415cdbee595ea0694f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 54/65] fix: rating classes of tiny probabilities were taken
 for the best one

---
 dcf/ratingclass.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dcf/ratingclass.py b/dcf/ratingclass.py
index 50db309..0487c39 100644
--- a/dcf/ratingclass.py
+++ b/dcf/ratingclass.py
@@ -30,6 +30,11 @@ SHORT_MASTER_SCALE = ('A',
                       'D')
 
 
+def _round(value):
+    # rounds to significant digits since probabilities might be tiny
+    return float('%.7e' % value)
+
+
 class RatingClass(object):
     SLOPPY = False
 
@@ -113,8 +118,7 @@ class RatingClass(object):
         if self.masterscale:
             # check for base class item
             for k in self.masterscale:
-                if round(float(self), 7) == round(float(self.masterscale[k]),
-                                                  7):
+                if _round(float(self)) == _round(float(self.masterscale[k])):
                     return k
             # build linear combination of base classes
             pairs = list(zip(list(self.masterscale.keys()), list(self)))
@@ -128,8 +132,8 @@ class RatingClass(object):
 
     def __iter__(self):
         if self._masterscale:
-            value = round(float(self), 7)
-            value_list = [round(x, 7) for x in list(self.masterscale.values())]
+            value = _round(float(self))
+            value_list = [_round(x) for x in list(self.masterscale.values())]
 
             if not min(value_list) <= value <= max(value_list):
                 msg = 'masterscale does not embrace %.7f' % float(
-- 
2.43.0


From 4ef659ef41a696f0138b84937fff5d8fa7ba3408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 55/65] fix: classes of a master scale with integer probability
 raised TypeError

---
 dcf/ratingclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/ratingclass.py b/dcf/ratingclass.py
index 0487c39..c00aac6 100644
--- a/dcf/ratingclass.py
+++ b/dcf/ratingclass.py
@@ -64,7 +64,7 @@ class RatingClass(object):
                 (k, float(v)) for k, v in sorted(i, key=lambda x: x[1]))
 
         def get(self, k, d=None):
-            return RatingClass(self[k], self) if k in self else d
+            return RatingClass(k, self) if k in self else d
 
         def __repr__(self):
             return self.__class__.__name__ + '(' + str(self)[1:-1] + ')'
@@ -97,7 +97,8 @@ class RatingClass(object):
                 masterscale = self.__class__.master_scale.fromkeys(masterscale)
 
         if masterscale:
-            value = masterscale[value] if value in masterscale else value
+            value = float(masterscale[value]) \
+                if value in masterscale else value
 
         if not isinstance(value, float):
             raise TypeError(
-- 
2.43.0


From 8a2de3a763785d26f8ca152beacb4a23f772a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 56/65] fix: table of a curve with origin in between its points
 did not end

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 839991e..b14cbb2 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -76,7 +76,7 @@ def rate_table(curve, x_grid=None, y_grid=None):
         x_grid = list(curve.domain)
         origin = getattr(curve, 'origin', x_grid[0])
         if origin not in x_grid:
-            x_grid = [origin] + x_grid
+            x_grid = sorted([origin] + x_grid)
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
         step = diff[0] if diff else x_grid[0] - x_grid[0]
-- 
2.43.0


From 90ada942cec7e0590251a2828a8ce68f14eeb5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 57/65] fix: rate table moved values to columns of other
 periods if those are not in order

---
 dcf/curves/curve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b14cbb2..3d46ccb 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -93,10 +93,14 @@ def rate_table(curve, x_grid=None, y_grid=None):
     grid = list()
     grid.append(('',) + tuple(y_grid))
     for i, x in enumerate(x_grid):
-        line = y_grid
+        line = list(y_grid)
         if i < len(x_grid)-1:
-            line = (y for y in y_grid if x + y < x_grid[i+1])
-        grid.append(((x,) + tuple(curve(x+y) for y in line)))
+            # periods need not be ordered as dates, so keep columns
+            line = list(y if x + y < x_grid[i+1] else None for y in y_grid)
+            while line and line[-1] is None:
+                line.pop()
+        grid.append(((x,) + tuple(
+            None if y is None else curve(x+y) for y in line)))
 
     return grid
 
-- 
2.43.0


From b0565d58d93bf59293be9c0bd72ce55ad0793c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 58/65] fix: default day counts of bond and interest_rate_swap
 raised TypeError

---
 dcf/cashflows/products.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 661ca6e..ef623cb 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -15,6 +15,7 @@ try:
 except ImportError:
     bd = None
 
+from ..daycount import day_count as default_day_count
 from .cashflow import CashFlowLegList, FixedCashFlowList, RateCashFlowList
 
 TODAY = 0.0
@@ -31,6 +32,20 @@ def _end_date(start_date, end_date):
     return end_date
 
 
+def _day_count(day_count):
+    # get function of day count given by name (applies only to dates)
+    if not isinstance(day_count, str):
+        return day_count
+
+    def func(start, end):
+        if bd and hasattr(start, 'year'):
+            start, end = bd.BusinessDate(start), bd.BusinessDate(end)
+            return start.get_day_count(end, day_count)
+        return default_day_count(start, end)
+
+    return func
+
+
 def _interest_payment_dates(
         start_date, end_date, period, convention, holidays):
     end_date = _end_date(start_date, end_date)
@@ -118,7 +133,7 @@ def bond(start_date=TODAY,
         amount_list=interest_notional_amount_list,
         fixed_rate=fixed_rate,
         forward_curve=forward_curve,
-        day_count=day_count,
+        day_count=_day_count(day_count),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
@@ -185,7 +200,7 @@ def interest_rate_swap(start_date=TODAY,
         amount_list=[-notional_amount] * len(pay_leg_payment_date_list),
         fixed_rate=fixed_rate,
         forward_curve=forward_curve,
-        day_count=day_count,
+        day_count=_day_count(day_count),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
@@ -199,7 +214,7 @@ def interest_rate_swap(start_date=TODAY,
         amount_list=[notional_amount] * len(rec_leg_payment_date_list),
         fixed_rate=rec_leg_fixed_rate,
         forward_curve=rec_leg_forward_curve,
-        day_count=rec_leg_day_count,
+        day_count=_day_count(rec_leg_day_count),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
-- 
2.43.0


From 86497dbacb2ab1a6b5e5fc0aef937d102fe3f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 59/65] fix: default holidays of interest_rate_swap raised
 TypeError

---
 dcf/cashflows/products.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index ef623cb..34a96b6 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -51,6 +51,8 @@ def _interest_payment_dates(
     end_date = _end_date(start_date, end_date)
     if bd and isinstance(start_date, bd.BusinessDate):
         start_date = bd.BusinessDate(start_date)
+        if holidays == 'target':
+            holidays = bd.businessholidays.TargetHolidays()
         payment_date_list = bd.BusinessSchedule(
             start_date, end_date, period, end_date)
         payment_date_list.adjust(convention, holidays)
-- 
2.43.0


From bed2e6b0afde7cccdf7012e048ca42332d1dd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 60/65] fix: fair rate lost the fixed rates of cashflows if
 they differ

---
 dcf/pricer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 78e6358..308c8af 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -354,8 +354,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates (which might differ per cashflow)
+    payoffs = tuple(cashflow_list.payoff(d) for d in cashflow_list.domain)
+    fixed_rates = tuple(payoff.fixed_rate for payoff in payoffs)
 
     # set error function
     def err(current):
@@ -363,11 +364,12 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing and restore fixed rate
+    # run bracketing and restore fixed rates
     try:
         _, par, _ = _simple_bracketing(err, *bounds, precision)
     finally:
-        cashflow_list.fixed_rate = fixed_rate
+        for payoff, fixed_rate in zip(payoffs, fixed_rates):
+            payoff.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From 531b6e0c7151636c8da0b1e078d408502d516bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 61/65] fix: origin of zero was ignored when fixing a cashflow
 list

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 651f368..6e5383b 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -270,7 +270,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From a60c63e4bf8dc4886c4692d02b41d1dc56d3cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 62/65] fix: rate cashflow lists without payments raised
 UnboundLocalError

---
 dcf/cashflows/cashflow.py   | 2 +-
 dcf/cashflows/contingent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 6e5383b..7150ae8 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -338,7 +338,7 @@ class RateCashFlowList(CashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 0fed812..c3b4890 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -253,7 +253,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
-- 
2.43.0


From f09ce8c419f4502bcc9380ae83c49cff2001e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 63/65] fix: leg list changed with the list of legs it was made
 from

---
 dcf/cashflows/cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 7150ae8..22f0041 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -213,6 +213,7 @@ class CashFlowLegList(CashFlowList):
         :param legs: list of |CashFlowList|
 
         """
+        legs = tuple(legs)
         for leg in legs:
             if not isinstance(leg, (CashFlowList, RateCashFlowList)):
                 cls = self.__class__.__name__, leg.__class__.__name__
-- 
2.43.0


From 05274a3af9430ad759f69ceede9b318c77cbd3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 64/65] fix: contingent cashflow list without payoffs took a
 single date only

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index c3b4890..1d780f5 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -62,7 +62,7 @@ class ContingentCashFlowList(_CashFlowList):
         [4, 4]
         """
         if payoff_list is None:
-            payoff_list = [_DEFAULT_PAYOFF]
+            payoff_list = [_DEFAULT_PAYOFF] * len(payment_date_list)
         self.payoff_model = payoff_model
         super().__init__(payment_date_list, payoff_list, origin=origin)
 
-- 
2.43.0


From 1dca65133675b8c7e7ca73afc96ac79097c24a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 65/65] fix: update of a date curve which was refused left its
 point behind

---
 dcf/curves/curve.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 3d46ccb..8d7469d 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -466,10 +466,15 @@ class DateCurve(Curve):
         sorted_domain = sorted(domain)
         if isinstance(domain, tuple):
             sorted_domain = tuple(sorted_domain)
+        previous = self._domain
         self._domain = sorted_domain
-        flt_domain = tuple(self.day_count(d) for d in domain)
-        super()._update(flt_domain, data)
-        self._domain = sorted_domain
+        try:
+            flt_domain = tuple(self.day_count(d) for d in domain)
+            super()._update(flt_domain, data)
+            previous = sorted_domain
+        finally:
+            # keep points as they were if not updated
+            self._domain = previous
 
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
-- 
2.43.0

