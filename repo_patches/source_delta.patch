From 58196703c4e34f161c29f91a8a55a59b5f70d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 01/84] fix: take critical values as quantiles of all simulated
 values, not of the distinct ones

---
 .../calculator/critical_value_calculator.py          | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..cb888b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return float(np.quantile(limit_distribution, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +45,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return float(np.quantile(limit_distribution, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +66,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(limit_distribution, q=sl))
+        right = float(np.quantile(limit_distribution, q=1 - sl))
 
         return left, right
-- 
2.43.0


From 1b429d020cb5bdf452d9181bd10aae42e6fa04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 02/84] fix: compute Sidak adjusted p-values without
 cancellation for small p-values

---
 .../hypothesis_testing/multiple_testing/fwer.py    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
index 051c182..2de9821 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
@@ -1,3 +1,5 @@
+import math
+
 from pysatl_criterion.hypothesis_testing.multiple_testing.abstract_multiple_testing import (
     AbstractMultipleTesting,
 )
@@ -35,6 +37,14 @@ class BonferroniMultipleTesting(AbstractMultipleTesting):
         return super().test(p_values, threshold)
 
 
+def _sidak(p_value: float, m: int) -> float:
+    """
+    Compute 1 - (1 - p) ** m without cancellation for small p-values.
+    """
+
+    return 1.0 if p_value >= 1 else -math.expm1(m * math.log1p(-p_value))
+
+
 class SidakMultipleTesting(AbstractMultipleTesting):
     """
     Šidák correction method for multiple testing.
@@ -52,7 +62,7 @@ class SidakMultipleTesting(AbstractMultipleTesting):
 
         cls._validate_p_values(p_values)
         m = len(p_values)
-        p_values_adjusted = [1 - (1 - p_value) ** m for p_value in p_values]
+        p_values_adjusted = [_sidak(p_value, m) for p_value in p_values]
         return p_values_adjusted
 
     @classmethod
@@ -121,4 +131,4 @@ class SidakHolm(AbstractMultipleTesting):
         n = len(p_values)
         if n == 0:
             return []
-        return [min(1.0, 1 - (1 - p) ** n) for p in p_values]
+        return [_sidak(p, n) for p in p_values]
-- 
2.43.0


From 0871d59a816b42956257019739751eb831782f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 03/84] fix: validate p-values in Holm, Sidak-Holm and
 Benjamini-Yekutieli adjust

---
 src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py | 1 +
 .../hypothesis_testing/multiple_testing/fwer.py                 | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
index f2efa86..5062992 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
@@ -24,6 +24,7 @@ class BenjaminiYekutieli(AbstractMultipleTesting):
         :param p_values: list of raw p-values between 0 and 1.
         :return: list of adjusted p-values in the original order, bounded in [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
index 2de9821..945aaf9 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
@@ -97,6 +97,7 @@ class Holm(AbstractMultipleTesting):
         :param p_values: list of raw p-values between 0 and 1.
         :return: list of adjusted p-values in the original order, bounded in [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
@@ -128,6 +129,7 @@ class SidakHolm(AbstractMultipleTesting):
         :param p_values: list of raw p-values for hypothesis testing (must be in [0, 1]).
         :return: list of adjusted p-values, each in range [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
-- 
2.43.0


From 45ede32ef6e0ed391f76551362770cfa4ef4508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 04/84] fix: CriticalValueLoader.load stores the remote record
 in the local storage

---
 .../critical_values/loader/remote_loader.py                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..b1df427 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -34,13 +34,13 @@ class CriticalValueLoader:
         logging.info(f"Load criterion {criterion_code} with size {sample_size} from remote")
         query = CriticalValueQuery(criterion_code, sample_size, sample_size_error)
 
+        if self.__local_storage.get_data_for_cv(query):
+            return True
+
         if self.__remote_storage is None:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
-            return True
-
         remote_data = self.__remote_storage.get_data_for_cv(query)
         if remote_data is not None:
             self.__local_storage.insert_data(remote_data)
-- 
2.43.0


From 1a82c1d6baf396210d338ef06b8b2174ff3dda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 05/84] fix: load_bulk reports what the local storage really
 holds

---
 .../critical_values/loader/remote_loader.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index b1df427..b8e7d6f 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -67,10 +67,6 @@ class CriticalValueLoader:
         if not criterion_codes:
             return BulkLoadResult(0, 0, 0, [])
 
-        if self.__remote_storage is None:
-            logging.error("Remote storage not initialized.")
-            return BulkLoadResult(len(criterion_codes), 0, 0, criterion_codes)
-
         # 1. Identify what's already in the local cache
         already_cached = []
         missing_codes = []
@@ -86,6 +82,10 @@ class CriticalValueLoader:
             logging.info("All requested criteria are already in the local cache.")
             return BulkLoadResult(len(criterion_codes), len(already_cached), 0)
 
+        if self.__remote_storage is None:
+            logging.error("Remote storage not initialized.")
+            return BulkLoadResult(len(criterion_codes), len(already_cached), 0, missing_codes)
+
         # 2. Fetch only missing data from remote
         logger.info(f"Fetching {len(missing_codes)} missing criteria from remote...")
         remote_models = self.__remote_storage.get_bulk_data(
@@ -98,7 +98,7 @@ class CriticalValueLoader:
             logger.info(f"Successfully cached {len(remote_models)} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
-            pass
+            remote_models = []
 
         # 4. Calculate what's still missing (not found even on remote)
         found_codes = {m.criterion_code for m in remote_models}
@@ -112,6 +112,6 @@ class CriticalValueLoader:
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=len(missing_codes) - len(not_found),
             not_found_codes=not_found,
         )
-- 
2.43.0


From 725824a4aab98ac25d44d1657ef4135a24865d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 06/84] fix: get_data_for_cv honours the sample size error of
 the query

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..4d9c0fd 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -168,7 +168,10 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(
+                        query.sample_size - query.sample_size_error,
+                        query.sample_size + query.sample_size_error,
+                    ),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From f4c653a08c3b3927c14d395ea619f79bf4fe4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 07/84] fix: read and delete stored distributions that several
 experiments share

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 4d9c0fd..92a5c33 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -86,6 +86,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
+            stmt = stmt.order_by(desc(LimitDistributionORM.experiment_id)).limit(1)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
@@ -148,10 +149,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
+            for obj in session.execute(stmt).scalars().all():
                 session.delete(obj)
-                session.commit()
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 1b85b9a9d772eb42c27633d1711f4dd6298e4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 08/84] fix: storage-backed resolver finds records of any Monte
 Carlo count

---
 .../hypothesis_testing/limit_distribution/base.py         | 1 -
 .../persistence/models/limit_distribution.py              | 4 +++-
 .../persistence/sqlalchemy/datastorage.py                 | 8 ++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
index 9cf06de..85cf56f 100644
--- a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
+++ b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
@@ -111,7 +111,6 @@ class StorageLimitDistributionResolver(AbstractLimitDistributionResolver):
                 criterion_code=statistic.code(),
                 criterion_parameters=statistic.hypothesis().parameters(),
                 sample_size=sample_size,
-                monte_carlo_count=1,
             )
         )
 
diff --git a/src/pysatl_criterion/persistence/models/limit_distribution.py b/src/pysatl_criterion/persistence/models/limit_distribution.py
index 9fc2064..6d563ab 100644
--- a/src/pysatl_criterion/persistence/models/limit_distribution.py
+++ b/src/pysatl_criterion/persistence/models/limit_distribution.py
@@ -34,12 +34,14 @@ class LimitDistributionModel(DataModel):
 class LimitDistributionQuery(DataQuery):
     """
     Query object for retrieving specific limit distribution data.
+
+    When monte_carlo_count is None, the record with the largest count is meant.
     """
 
     criterion_code: str
     criterion_parameters: list[float]
     sample_size: int
-    monte_carlo_count: int
+    monte_carlo_count: int | None = None
 
 
 @dataclass
diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 92a5c33..d5bc046 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -84,9 +84,13 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.criterion_code == query.criterion_code,
                 LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
                 LimitDistributionORM.sample_size == query.sample_size,
-                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            stmt = stmt.order_by(desc(LimitDistributionORM.experiment_id)).limit(1)
+            if query.monte_carlo_count is not None:
+                stmt = stmt.where(LimitDistributionORM.monte_carlo_count == query.monte_carlo_count)
+            stmt = stmt.order_by(
+                desc(LimitDistributionORM.monte_carlo_count),
+                desc(LimitDistributionORM.experiment_id),
+            ).limit(1)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
-- 
2.43.0


From 6ca52e834f9cbf59a5454edd4cd25cde77755afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 09/84] fix: report corrupt stored arrays instead of decoding
 them silently

---
 .../persistence/sqlalchemy/alchemy_decorator.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 70676ab..03e67e9 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -24,7 +24,7 @@ class CompressedFloatArray(TypeDecorator):
         """
         super().__init__()
         self.use_float32 = use_float32
-        self.compressor = zstd.ZstdCompressor()
+        self.compressor = zstd.ZstdCompressor(write_checksum=True)
         self.decompressor = zstd.ZstdDecompressor()
 
     def process_bind_param(self, value: list[float] | None, dialect):
@@ -69,8 +69,14 @@ class CompressedFloatArray(TypeDecorator):
         if version != self.VERSION:
             raise ValueError(f"Unsupported version: {version}")
 
+        if dtype_code not in (self.DTYPE_FLOAT32, self.DTYPE_FLOAT64):
+            raise ValueError(f"Unsupported data type: {dtype_code}")
+
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
         decompressed_bytes = self.decompressor.decompress(compressed)
-        arr = np.frombuffer(decompressed_bytes, dtype=dtype, count=length)
+        arr = np.frombuffer(decompressed_bytes, dtype=dtype)
+        if len(arr) != length:
+            raise ValueError(f"Expected {length} values, found {len(arr)}")
+
         return arr.tolist()
-- 
2.43.0


From dcf9c5c960939a8b10480108eed5990ee8158ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 10/84] fix: truncated normal generator truncates at the given
 bounds

---
 src/pysatl_criterion/core/distributions/truncnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..f815f8d 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,7 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    scale = np.sqrt(var)
+    return truncnorm.rvs(
+        a=(a - mean) / scale, b=(b - mean) / scale, size=size, loc=mean, scale=scale
+    )
-- 
2.43.0


From b492743f853b7b545220ec92ae0d465c2dff8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 11/84] fix: Rice generator keeps the given noncentrality for
 every sigma

---
 src/pysatl_criterion/core/distributions/rice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..f6b7a0a 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -43,4 +43,4 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    return rice.rvs(nu / sigma, size=size, scale=sigma)
-- 
2.43.0


From 237b378bb85e393483e628762cbc7572bb477ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 12/84] fix: inverse Gaussian generator has the declared mean
 for every lam

---
 src/pysatl_criterion/generator/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..e52f03d 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -742,7 +742,7 @@ class InvGaussGenerator(AbstractRVSGenerator):
     @override
     def generate(self, size):
         """Generate inverse Gaussian random sample."""
-        return generate_invgauss(size=size, mu=self.mu, lam=self.lam)
+        return generate_invgauss(size=size, mu=self.mu / self.lam, lam=self.lam)
 
 
 class RiceGenerator(AbstractRVSGenerator):
-- 
2.43.0


From 43f9d5deac6e76c6aa336573786a26b5fc93a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 13/84] fix: Rice generator degenerates to nu when sigma is
 zero

---
 src/pysatl_criterion/core/distributions/rice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index f6b7a0a..81f1124 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.stats import rice
 
 
@@ -43,4 +44,6 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
+    if sigma == 0:
+        return np.full(size, float(nu))
     return rice.rvs(nu / sigma, size=size, scale=sigma)
-- 
2.43.0


From b1c7f2dea98b5f47f6f0c67b9a2de63a874f5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 14/84] fix: beta criteria name their null parameters as the
 beta generator does

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
-- 
2.43.0


From 478cb58a8b73f9e183f37d6ae841eb6f671802ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 15/84] fix: gamma criteria name their null parameters as the
 gamma generator does

---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..0e57a64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From a2f0340db8cca202a21ead66815ecfc1d0e0445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 16/84] fix: log-normal generator honours the scale of the
 criteria's null

---
 src/pysatl_criterion/generator/generators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index e52f03d..6212111 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -73,6 +73,8 @@ NormalGenerator
     Normal distribution generator.
 """
 
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -331,12 +333,15 @@ class LognormGenerator(AbstractRVSGenerator):
         Shape parameter.
     mu : float, default=0
         Mean parameter.
+    scale : float, optional
+        Median ``exp(mu)``, the form in which log-normal criteria state
+        their null. Takes precedence over ``mu``.
     """
 
-    def __init__(self, s=1, mu=0, **kwargs):
+    def __init__(self, s=1, mu=0, scale=None, **kwargs):
         super().__init__(**kwargs)
         self.s = s
-        self.mu = mu
+        self.mu = mu if scale is None else math.log(scale)
 
     @override
     def parameters(self) -> dict[str, float]:
-- 
2.43.0


From f00076baf6d1ca496b3c2bdd978f6be9e45a2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 17/84] fix: Watson uniformity statistic equals Watson's U
 squared

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..c2c644e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -352,7 +352,7 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         i = np.arange(1, n + 1)
         fn = i / n
         mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f + 0.5) ** 2) + 1 / (12 * n)
 
         return u2
 
-- 
2.43.0


From 13d8ec6ecb6e626b82c91057096ecaf177dd8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 18/84] fix: Zhang's Z_C and Z_K uniformity statistics follow
 their definitions

---
 .../statistics/goodness_of_fit/uniform.py             | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index c2c644e..051f8b0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -592,14 +592,13 @@ class ZhangTestsUniformGofStatistic(AbstractUniformGofStatistic):
             statistic = -term1 - term2
 
         elif self.test_type == "C":
-            term1 = np.sum((np.log(rvs_std) / (n - i + 0.5)) ** 2)
-            term2 = np.sum((np.log(1 - rvs_std) / (i - 0.5)) ** 2)
-            statistic = term1 + term2
+            odds = (1 / rvs_std - 1) / ((n - 0.5) / (i - 0.75) - 1)
+            statistic = np.sum(np.log(odds) ** 2)
 
         else:
-            term1 = np.sum(np.log(rvs_std / (1 - rvs_std)) / (n - i + 0.5))
-            term2 = np.sum(np.log((1 - rvs_std) / rvs_std) / (i - 0.5))
-            statistic = max(np.abs(term1), np.abs(term2))
+            term1 = (i - 0.5) * np.log((i - 0.5) / (n * rvs_std))
+            term2 = (n - i + 0.5) * np.log((n - i + 0.5) / (n * (1 - rvs_std)))
+            statistic = np.max(term1 + term2)
 
         return statistic
 
-- 
2.43.0


From ee6231d087e8cf86c17e9c55b5c9958d9a235eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 19/84] fix: Sherman and Quesenberry-Miller uniformity
 statistics use spacings relative to the interval

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 051f8b0..7c61dd6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -908,9 +908,9 @@ class ShermanUniformGofStatistic(AbstractUniformGofStatistic):
 
         x_with_boundaries = np.concatenate([[self.a], x_sorted, [self.b]])
 
-        spacings = np.diff(x_with_boundaries)
+        spacings = np.diff(x_with_boundaries) / (self.b - self.a)
 
-        expected_spacing = (self.b - self.a) / (n + 1)
+        expected_spacing = 1 / (n + 1)
         s = 0.5 * np.sum(np.abs(spacings - expected_spacing))
 
         return s
@@ -960,7 +960,7 @@ class QuesenberryMillerUniformGofStatistic(AbstractUniformGofStatistic):
 
         x_with_boundaries = np.concatenate([[self.a], x_sorted, [self.b]])
 
-        spacings = np.diff(x_with_boundaries)
+        spacings = np.diff(x_with_boundaries) / (self.b - self.a)
 
         sum_squares = np.sum(spacings**2)
 
-- 
2.43.0


From 1a1723463223db2a5de91e84e7f8940849cef743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 20/84] fix: Zhang's Z_C Student statistic uses (n - 1/2) / (i
 - 3/4) - 1

---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..640c8df 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,7 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
+        term2 = (n - 0.5) / (i - 0.75) - 1
         # Avoid division by zero and log of negative numbers
         term2 = np.where(term2 <= 0, 1e-10, term2)
         zc = np.sum(np.log(term1 / term2) ** 2)
-- 
2.43.0


From 17a7db1c2cbde8ae8e69bcd9b84c30be39c7a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 21/84] fix: exponentiality criteria no longer sort the
 caller's sample in place

---
 .../statistics/goodness_of_fit/exponent.py        | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..ac208a6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,8 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
-        rvs = np.array(rvs)
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -820,7 +819,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +870,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +921,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1065,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1284,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
-- 
2.43.0


From 4a92925debc5dbad1f2abaae4f327b44e0194f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 22/84] fix: Kolmogorov-Smirnov exponentiality criterion uses
 its rate parameter

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index ac208a6..7b2f69b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
-- 
2.43.0


From 05a70e5320728b0617ca301de202aa6ffb350879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 23/84] fix: Hegazy-Green exponentiality criteria use their
 rate parameter

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7b2f69b..9c1957c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -719,7 +719,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         n = len(rvs)
         x = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum(np.abs(x - b))
+        hg = (n ** (-1)) * np.sum(np.abs(self.lam * x - b))
 
         return hg
 
@@ -1286,7 +1286,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         n = len(rvs)
         rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
+        hg = (n ** (-1)) * np.sum((self.lam * rvs - b) ** 2)
 
         return hg
 
-- 
2.43.0


From 699c7e645c91b74b63e0afd813f77bd6ee58b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 24/84] fix: Brys-Hubert-Struyf normality statistic computes
 the medcouple

---
 .../statistics/goodness_of_fit/normal.py      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..a2f69a2 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1994,14 +1994,14 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[n // 2 :]
             else:
                 x1 = x_sorted[: (n // 2) + 1]
-                x2 = x_sorted[(n // 2) + 1 :]
+                x2 = x_sorted[n // 2 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            # mc_c_d writes its outcome to the list, so every call needs a list of its own
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
@@ -2091,7 +2091,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # x2[i - 1] corresponds to x[j - 1 + i]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
@@ -2132,7 +2132,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
@@ -2251,7 +2250,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2271,11 +2270,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 0c3d5cfc269d04a9798f76e17746db2b201197de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 25/84] fix: normality KS and Cramer-von Mises use the mean and
 variance they declare

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index a2f69a2..1eb8123 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -88,7 +88,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -220,7 +220,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From 92f555e24a9f29656660b6473a48b422067d2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 26/84] fix: Ryan-Joiner normality criterion initialises its
 null parameters

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 1eb8123..3963009 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -554,7 +554,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        super().__init__()
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From e8e8ad5fb74f99df8ea3c1a01e90748362838bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 27/84] fix: Hosking normality criteria sort a copy of the
 sample

---
 .../statistics/goodness_of_fit/normal.py                 | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 3963009..525b3b5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -779,8 +779,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n].copy()
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             tmp1 = n * (n - 1)
             tmp2 = tmp1 * (n - 2)
             tmp3 = tmp2 * (n - 3)
@@ -839,8 +838,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l22 = 0.0
             l32 = 0.0
             l42 = 0.0
@@ -907,8 +905,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l23 = 0.0
             l33 = 0.0
             l43 = 0.0
-- 
2.43.0


From dac7d2c359896f16ed2c2e733da1e0d83eaef4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 28/84] fix: skewness statistic is zero on a sample without
 skewness

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 525b3b5..226e4b4 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -346,7 +346,6 @@ class SkewNormalityGofStatistic(AbstractNormalityGofStatistic):
         w2 = -1 + math.sqrt(2 * (beta2 - 1))
         delta = 1 / math.sqrt(0.5 * math.log(w2))
         alpha = math.sqrt(2.0 / (w2 - 1))
-        y = np.where(y == 0, 1, y)
         z = delta * np.log(y / alpha + np.sqrt((y / alpha) ** 2 + 1))
 
         return z
-- 
2.43.0


From 96179e04ce5e2150970879d3bccabd8520ac7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 29/84] fix: Martinez-Iglewicz statistic leaves outliers out of
 the biweight scale

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 226e4b4..2b0b245 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1324,8 +1324,10 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
             a = 9.0 * a
 
             z = aux1 / a
-            term1 = np.sum(aux1**2 * (1 - z**2) ** 4)
-            term2 = np.sum((1 - z**2) * (1 - 5 * z**2))
+            inside = np.abs(z) < 1  # the biweight scale ignores the observations further out
+            z_in = z[inside]
+            term1 = np.sum(aux1[inside] ** 2 * (1 - z_in**2) ** 4)
+            term2 = np.sum((1 - z_in**2) * (1 - 5 * z_in**2))
             term3 = np.sum(aux1**2)
 
             sb2 = (n * term1) / term2**2
-- 
2.43.0


From 8cfec18aa903fc6928618505488c95b168fbac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 30/84] fix: Desgagne-Lafaye statistic is finite when an
 observation equals the mean

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 2b0b245..5e838f5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2403,7 +2403,8 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             # Formulas given in our paper p. 169
             for i in range(n):
-                r1 += y[i] ** 2 * np.log(abs(y[i]))
+                if y[i] != 0:  # y^2 log|y| tends to 0 at the mean
+                    r1 += y[i] ** 2 * np.log(abs(y[i]))
                 r2 += np.log(1.0 + abs(y[i]))
                 r3 += np.log(np.log(2.71828182846 + abs(y[i])))
             r1 = 0.18240929 - 0.5 * r1 / n
-- 
2.43.0


From 48695ded0d0aaa61b3fa7f4cb01469321c7e3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 31/84] fix: Spiegelhalter statistic does not overflow on large
 samples

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 5e838f5..9ae37e5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2356,7 +2356,9 @@ class SpiegelhalterNormalityGofStatistic(AbstractNormalityGofStatistic):
                     / (2 * math.e)
                 )  # Stirling approximation
 
-            stat_sp = ((cn * u) ** (-(n - 1)) + g ** (-(n - 1))) ** (1 / (n - 1))
+            # on the log scale, because g ** (-(n - 1)) overflows for large samples
+            log_terms = np.logaddexp(-(n - 1) * math.log(cn * u), -(n - 1) * math.log(g))
+            stat_sp = math.exp(log_terms / (n - 1))
 
             return stat_sp  # Here is the test statistic value
 
-- 
2.43.0


From f43b797ae2482f0bed340d6517c5c3c6ea8335f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 32/84] fix: Coin statistic prints nothing for large samples

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 9ae37e5..776d5be 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1692,9 +1692,6 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
             raise ValueError("n2>n")
         if n <= 1:
             raise ValueError("n<=1")
-        if n > 2000:
-            print("Values may be inaccurate because of the size of N")
-
         s[0] = b1
         if n == 2:
             return
-- 
2.43.0


From b2d688430908fef44ffe196ebfdae2df871aae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 33/84] fix: Anderson-Darling Weibull criterion no longer
 passes an unknown argument

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..933149a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
-- 
2.43.0


From 19962daed42d506785359e88d54c300219466a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 34/84] fix: Weibull Laplace transform criteria run, on the
 standardised log sample

---
 .../statistics/goodness_of_fit/weibull.py                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 933149a..460c484 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1295,7 +1295,9 @@ class LaplaceTransformWeibullGofStatistic(AbstractWeibullGofStatistic):
         else:
             raise ValueError("type must be LT2_WEIBULL / LT3_WEIBULL")
 
-        exp_matrix = np.exp(-np.outer(rvs, t_values))
+        # gamma(1 - t) is the transform of the logarithm of a standard Weibull sample
+        y = WPPWeibullGofStatistic.MLEst(rvs)["y"]
+        exp_matrix = np.exp(-np.outer(y, t_values))
 
         col_sums = np.sum(exp_matrix, axis=0)
 
@@ -1348,7 +1350,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1392,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
-- 
2.43.0


From 67049a322da3d552f342b0598e355c95016570fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 35/84] fix: Cabana-Quiroz Weibull criterion uses the
 standardised log sample

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 460c484..683b837 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1395,7 +1395,6 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
-# TODO: Check it. Throws exception on weibull test
 class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
     """
     Cabana-Quiroz test statistic for Weibull distribution.
@@ -1443,8 +1442,10 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
 
         n = len(rvs)
 
-        e1 = np.exp(-rvs * s1)
-        e2 = np.exp(-rvs * s2)
+        # gamma(1 - s) is the transform of the logarithm of a standard Weibull sample
+        y = WPPWeibullGofStatistic.MLEst(rvs)["y"]
+        e1 = np.exp(-y * s1)
+        e2 = np.exp(-y * s2)
 
         mean_e1 = np.mean(e1)
         mean_e2 = np.mean(e2)
-- 
2.43.0


From e109450ea590628469be17bba8bcfe424a217d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 36/84] fix: clique number is the size of a maximum clique and
 leaves the sample unsorted

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..ebddcb1 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,17 +188,17 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
         right_border = 0
         clique_number = 0
         for left_border in range(len(rvs)):
-            while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
+            while right_border < len(rvs) and rvs[right_border] - rvs[left_border] < dist:
                 right_border += 1
+            right_border = max(right_border, left_border + 1)
+            clique_number = max(clique_number, right_border - left_border)
             if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
                 break
-            clique_number = max(clique_number, right_border - left_border)
         return clique_number
 
     @staticmethod
-- 
2.43.0


From 06f85778abbb68875530c8d9002a4fde36981fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 37/84] fix: independence number accepts arrays and leaves the
 sample unsorted

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index ebddcb1..7e48558 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -225,18 +225,18 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
         stat = 1
         last_chosen_position = rvs[0]
 
         for i in range(1, len(rvs)):
             current_point = rvs[i]
-            if current_point >= last_chosen_position + dist:
+            if current_point - last_chosen_position >= dist:
                 stat += 1
                 last_chosen_position = current_point
 
-- 
2.43.0


From 07cb07546565a9d9e0ef4dcee1903f9d498ef362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 38/84] fix: WE exponentiality statistic uses the sample
 variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 9c1957c..9129cba 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -1189,7 +1189,7 @@ class WeExponentialityGofStatistic(AbstractExponentialityGofStatistic):
 
         n = len(rvs)
         m = np.mean(rvs)
-        v = np.var(rvs)
+        v = np.var(rvs, ddof=1)
         we = (n - 1) * v / (n**2 * m**2)
 
         return we
-- 
2.43.0


From a951f4b88a621c33578499f5fc7e1b545e04f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 39/84] fix: code of the Cramer-von Mises normality criterion
 names its family

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 776d5be..b62997e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -214,8 +214,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def code():
         short_code = CramerVonMiseNormalityGofStatistic.short_code()
-        base_code = super(AbstractNormalityGofStatistic, AbstractNormalityGofStatistic).code()
-        return f"{short_code}_{base_code}"
+        return f"{short_code}_{AbstractNormalityGofStatistic.code()}"
 
     @override
     def execute_statistic(self, rvs):
-- 
2.43.0


From cce223da08b1a62a9a523a3098055ab7112c5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 40/84] fix: Weibull maximum likelihood estimate solves the
 score equation

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 683b837..b691481 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -764,7 +764,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         def f1(toto, vect):
             if toto != 0:
                 f1 = np.sum(vect) / len(vect)
-                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) - 1 / toto
+                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) + 1 / toto
             else:
                 f1 = 100
             return abs(f1)
-- 
2.43.0


From ef1f38312c2994c36cd636573c7f5afeba74d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 41/84] fix: Hegazy-Green and Kimber-Michael criteria reject
 for large values

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 9129cba..a3b0384 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -683,7 +683,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -786,7 +786,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -1251,7 +1251,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From 2fb07047c64675743e3d2d9d463e36db2de9e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 42/84] fix: gamma probability plot criterion rejects for large
 1 - correlation

---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 0e57a64..db5fd17 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -741,7 +741,7 @@ class ProbabilityPlotCorrelationGammaGofStatistic(AbstractGammaGofStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From 17b0f1f2b594a3db0c3107313d78b904337d2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 43/84] fix: SWRG normality criterion rejects for small values

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b62997e..ab29216 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1849,7 +1849,7 @@ class ZhangQQStarNormalityTest(AbstractNormalityTestStatistic):  # TODO: check f
 class SWRGNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return RightAlternative()
+        return LeftAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From b84b90eba6d7bafda857349156764f61272e6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 44/84] fix: Weibull maximised likelihood solves the score
 equation

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From 0b422a5be66a1a142e7d62f332e2af00e94a7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 45/84] fix: maximised likelihoods add up log densities instead
 of taking the log of an underflowed density

---
 .../function_for_maximum_likelihood.py        | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..1336305 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -1,4 +1,4 @@
-from math import comb, exp, factorial, log, pi, sqrt
+from math import comb, exp, factorial, log, pi
 
 import numpy as np
 from scipy.optimize import minimize_scalar, root_scalar
@@ -75,8 +75,7 @@ def likelihood_function_normal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / sqrt(2 * pi * variance)) * exp(-((x - mean) ** 2) / (2 * variance))
-        log_likelihood += log(prob_density)
+        log_likelihood += -log(2 * pi * variance) / 2 - (x - mean) ** 2 / (2 * variance)
 
     likelihood = exp(log_likelihood)
 
@@ -104,10 +103,9 @@ def likelihood_function_lognormal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / (x * sqrt(2 * pi * variance_log))) * exp(
-            -((log(x) - mean_log) ** 2) / (2 * variance_log)
+        log_likelihood += (
+            -log(x) - log(2 * pi * variance_log) / 2 - (log(x) - mean_log) ** 2 / (2 * variance_log)
         )
-        log_likelihood += log(prob_density)
 
     likelihood = exp(log_likelihood)
 
@@ -135,8 +133,7 @@ def likelihood_function_exponential(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = lam * exp(-lam * x)
-        log_likelihood += log(prob_density)
+        log_likelihood += log(lam) - lam * x
 
     likelihood = exp(log_likelihood)
 
@@ -169,11 +166,11 @@ def likelihood_function_weibull(dataArray):
     k = res.root
 
     lam = (np.mean(dataArray**k)) ** (1 / k)
-    likelihood = np.prod(
-        (k / lam) * (dataArray / lam) ** (k - 1) * np.exp(-((dataArray / lam) ** k))
+    log_likelihood = np.sum(
+        log(k / lam) + (k - 1) * np.log(dataArray / lam) - (dataArray / lam) ** k
     )
 
-    return likelihood
+    return np.exp(log_likelihood)
 
 
 # 6.Gamma distribution
-- 
2.43.0


From 1623cc3480c8ad530f75a8b0527f31703228747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 46/84] fix: maximised likelihoods of concentrated samples
 overflow to infinity instead of raising

---
 .../function_for_maximum_likelihood.py             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 1336305..7f00040 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -51,7 +51,7 @@ def likelihood_function_uniform_continuous(dataArray):
         return 0
 
     log_likelihood = -len(dataArray) * log(b - a)
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -77,7 +77,7 @@ def likelihood_function_normal(dataArray):
     for x in dataArray:
         log_likelihood += -log(2 * pi * variance) / 2 - (x - mean) ** 2 / (2 * variance)
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -107,7 +107,7 @@ def likelihood_function_lognormal(dataArray):
             -log(x) - log(2 * pi * variance_log) / 2 - (log(x) - mean_log) ** 2 / (2 * variance_log)
         )
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -135,7 +135,7 @@ def likelihood_function_exponential(dataArray):
     for x in dataArray:
         log_likelihood += log(lam) - lam * x
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -220,7 +220,7 @@ def likelihood_function_beta(dataArray):
         + (beta_param - 1) * np.sum(np.log(1 - dataArray))
     )
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -357,7 +357,7 @@ def likelihood_function_wigner(dataArray):
     if not result.success:
         return 0
 
-    return exp(-result.fun)
+    return np.exp(-result.fun)
 
 
 # 14.Pareto distribution
@@ -387,7 +387,7 @@ def likelihood_function_pareto(dataArray):
         n * np.log(alpha) + n * alpha * np.log(x_m) - (alpha + 1) * np.sum(np.log(dataArray))
     )
 
-    return exp(log_likelihood)
+    return np.exp(log_likelihood)
 
 
 # 15.Laplace distribution
-- 
2.43.0


From 5b1d4e7c0d791fd64a560ee604bb839d1504d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 47/84] fix: Poisson, geometric and binomial maximised
 likelihoods accept boundary and floating-point counts

---
 .../function_for_maximum_likelihood.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 7f00040..d753973 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -484,7 +484,7 @@ def likelihood_function_binomial(dataArray, n):
             return 0
 
     log_likelihood = np.sum(
-        [log(comb(n, x)) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
+        [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
     return exp(log_likelihood)
@@ -505,7 +505,10 @@ def likelihood_function_poisson(dataArray):
     sum_x = np.sum(dataArray)
     lam = sum_x / len(dataArray)
 
-    log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
+    if lam == 0:
+        return 1
+
+    log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
     likelihood = exp(log_likelihood)
 
     return likelihood
@@ -527,6 +530,9 @@ def likelihood_function_geometric(dataArray):
     sum_x = np.sum(dataArray)
     p = n / sum_x
 
+    if p == 1:
+        return 1
+
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 94c0176888d8fbefa501e046658312d12bd6e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 48/84] fix: Wigner maximised likelihood searches the radius on
 the scale of the data

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index d753973..24c9c1e 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -350,8 +350,12 @@ def likelihood_function_wigner(dataArray):
         n = len(dataArray)
         return -(n * log(2 / (pi * R**2)) + 0.5 * np.sum(np.log(R**2 - dataArray**2)))
 
+    # the score equation sum(x^2 / (R^2 - x^2)) = n has its root between max|x| and sqrt(2) * max|x|
     result = minimize_scalar(
-        neg_log_likelihood, bounds=(max_abs_x + 1e-6, max_abs_x + 10), method="bounded"
+        neg_log_likelihood,
+        bounds=(max_abs_x, 1.5 * max_abs_x),
+        method="bounded",
+        options={"xatol": 1e-9 * max_abs_x},
     )
 
     if not result.success:
-- 
2.43.0


From 231e83032b8721a4946a7871923a3a79d59c728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 49/84] fix: discrete uniform maximised likelihood is zero for
 non-integer data

---
 .../maximum_likelihood/function_for_maximum_likelihood.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 24c9c1e..f5d87cc 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -423,10 +423,13 @@ def likelihood_function_discrete_uniform(dataArray):
     """
     Calculate likelihood function for discrete uniform distribution.
 
-    :param dataArray: array of observed discrete data samples.
+    :param dataArray: array of observed discrete data samples (must be integers).
 
-    :return: likelihood value.
+    :return: likelihood value (0 if any value is non-integer).
     """
+    if not np.all(np.floor(dataArray) == dataArray):
+        return 0
+
     a = np.min(dataArray)
     b = np.max(dataArray)
 
-- 
2.43.0


From 1c4b765598ccf9f400abbb8ad050a7c1b5b7e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 50/84] fix: the maximum likelihood family search can be
 imported and returns its result

---
 .../maximum_likelihood/maximum_likelihood.py    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 3362194..5f5a163 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -1,8 +1,9 @@
 import inspect
 
-import function_for_maximum_likelihood
 import numpy as np
 
+from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood
+
 
 def find_max_probability_function(data):
     """
@@ -12,8 +13,11 @@ def find_max_probability_function(data):
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
+    # only likelihoods of the data alone: the binomial one also needs the number of trials
     functions = [
-        f for _, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        f
+        for name, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        if name.startswith("likelihood_function_") and len(inspect.signature(f).parameters) == 1
     ]
 
     max_func = None
@@ -25,6 +29,9 @@ def find_max_probability_function(data):
             max_probability = result
             max_func = func
 
+    if max_func is None:
+        raise ValueError("No function produces a positive likelihood.")
+
     return max_func
 
 
@@ -39,10 +46,12 @@ def find_result_of_likelihood_function(data):
     """
     data_array = np.array(data)
 
-    if not data_array:
+    if data_array.size == 0:
         raise ValueError("There are no data.")
 
     if not np.issubdtype(data_array.dtype, np.number):
         raise TypeError("Data should be numeric.")
 
-    find_max_probability_function(data)
+    max_func = find_max_probability_function(data_array)
+
+    return max_func, max_func(data_array)
-- 
2.43.0


From ccb4a253bf93decf0cc60bb5cb289e9e151a5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 51/84] fix: sample moment without a center is the raw moment

---
 src/pysatl_criterion/core/distributions/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/sample.py b/src/pysatl_criterion/core/distributions/sample.py
index bb5c087..2cbc7a2 100644
--- a/src/pysatl_criterion/core/distributions/sample.py
+++ b/src/pysatl_criterion/core/distributions/sample.py
@@ -27,7 +27,7 @@ def moment(a, mom=1, center=None):
 
     Notes
     -----
-    When ``center=None``, SciPy computes raw moments.
+    When ``center=None``, raw moments are computed (SciPy alone would use the sample mean).
     When ``center`` is specified, it computes central moments.
 
     Examples
@@ -35,7 +35,7 @@ def moment(a, mom=1, center=None):
     >>> moment([1, 2, 3], mom=2)
     array([...])
     """
-    return scipy_moment(a=a, moment=mom, center=center)
+    return scipy_moment(a=a, moment=mom, center=0 if center is None else center)
 
 
 def central_moment(a, mom=1):
-- 
2.43.0


From 2fc5d874c1e3a8ed2fbfc0953fcc76bd23ed2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 52/84] fix: Rayleigh maximised likelihood is zero for a zero
 observation

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index f5d87cc..c394867 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -316,11 +316,11 @@ def likelihood_function_rayleigh(dataArray):
     """
     Calculate likelihood function for Rayleigh distribution.
 
-    :param dataArray: array of observed data samples (must be non-negative).
+    :param dataArray: array of observed data samples (must be positive).
 
-    :return: likelihood value (0 if any value is negative).
+    :return: likelihood value (0 if any value is non-positive).
     """
-    if np.any(dataArray < 0):
+    if np.any(dataArray <= 0):
         return 0
 
     params = rayleigh.fit(dataArray, floc=0)
-- 
2.43.0


From 958ca01ff5aa9b508af5f5e84f11c737aad0a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 53/84] fix: Zhang-Wu and Glen-Leemis-Barr normality statistics
 stay finite with an extreme observation

---
 .../statistics/goodness_of_fit/normal.py      | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index ab29216..7838fac 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -967,16 +967,15 @@ class ZhangWuCNormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(rvs)
 
         if n > 3:
-            phiz = np.zeros(n)
             mean_x = np.mean(rvs)
             var_x = np.var(rvs, ddof=1)
             sd_x = np.sqrt(var_x)
-            for i in range(n):
-                phiz[i] = scipy_stats.norm.cdf((rvs[i] - mean_x) / sd_x)
-            phiz.sort()
+            z = (np.sort(rvs) - mean_x) / sd_x
+            # log(1 / phi - 1) without the cancellation of 1 - phi in the upper tail
+            log_odds = scipy_stats.norm.logsf(z) - scipy_stats.norm.logcdf(z)
             stat_zc = 0.0
             for i in range(1, n + 1):
-                stat_zc += np.log((1.0 / phiz[i - 1] - 1.0) / ((n - 0.5) / (i - 0.75) - 1.0)) ** 2
+                stat_zc += (log_odds[i - 1] - np.log((n - 0.5) / (i - 0.75) - 1.0)) ** 2
             return stat_zc
 
 
@@ -1001,18 +1000,15 @@ class ZhangWuANormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(rvs)
 
         if n > 3:
-            phiz = np.zeros(n)
             mean_x = np.mean(rvs)
             var_x = np.var(rvs, ddof=1)
             sd_x = np.sqrt(var_x)
-            for i in range(n):
-                phiz[i] = scipy_stats.norm.cdf((rvs[i] - mean_x) / sd_x)
-            phiz.sort()
+            z = (np.sort(rvs) - mean_x) / sd_x
+            log_phi = scipy_stats.norm.logcdf(z)
+            log_one_minus_phi = scipy_stats.norm.logsf(z)
             stat_za = 0.0
             for i in range(1, n + 1):
-                stat_za += np.log(phiz[i - 1]) / ((n - i) + 0.5) + np.log(1.0 - phiz[i - 1]) / (
-                    i - 0.5
-                )
+                stat_za += log_phi[i - 1] / ((n - i) + 0.5) + log_one_minus_phi[i - 1] / (i - 0.5)
             stat_za = -stat_za
             stat_za = 10.0 * stat_za - 32.0
             return stat_za
@@ -1039,21 +1035,19 @@ class GlenLeemisBarrNormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(rvs)
 
         if n > 3:
-            phiz = np.zeros(n)
             mean_x = np.mean(rvs)
             var_x = np.var(rvs, ddof=1)
             sd_x = np.sqrt(var_x)
-            for i in range(n):
-                phiz[i] = scipy_stats.norm.cdf((rvs[i] - mean_x) / sd_x)
-            phiz.sort()
-            for i in range(1, n + 1):
-                phiz[i - 1] = scipy_stats.beta.cdf(phiz[i - 1], i, n - i + 1)
-            phiz.sort()
+            z = (np.sort(rvs) - mean_x) / sd_x
+            ranks = np.arange(1, n + 1)
+            # the upper tail comes from the survival function, where 1 - phi would cancel to zero
+            log_p = scipy_stats.beta.logcdf(scipy_stats.norm.cdf(z), ranks, n - ranks + 1)
+            log_q = scipy_stats.beta.logcdf(scipy_stats.norm.sf(z), n - ranks + 1, ranks)
+            log_p = np.sort(log_p)
+            log_q = np.sort(log_q)[::-1]
             stat_ps = 0
             for i in range(1, n + 1):
-                stat_ps += (2 * n + 1 - 2 * i) * np.log(phiz[i - 1]) + (2 * i - 1) * np.log(
-                    1 - phiz[i - 1]
-                )
+                stat_ps += (2 * n + 1 - 2 * i) * log_p[i - 1] + (2 * i - 1) * log_q[i - 1]
             return -n - stat_ps / n
 
 
-- 
2.43.0


From 52a77aa2c3a23e561e4b5609a5fbc0e751b15d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 54/84] fix: normality statistics take the variance around the
 mean, not as a difference of large squares

---
 .../statistics/goodness_of_fit/normal.py           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 7838fac..b468877 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1176,8 +1176,8 @@ class BontempsMeddahi1NormalityGofStatistic(AbstractNormalityGofStatistic):
             mean_x /= n
 
             for i in range(n):
-                var_x += rvs[i] ** 2
-            var_x = (n * (var_x / n - mean_x**2)) / (n - 1)
+                var_x += (rvs[i] - mean_x) ** 2
+            var_x = var_x / (n - 1)
             sd_x = math.sqrt(var_x)
 
             for i in range(n):
@@ -1618,8 +1618,8 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
             mean_x /= n
 
             for i in range(n):
-                var_x += x[i] ** 2
-            var_x = (n * (var_x / n - mean_x**2)) / (n - 1)
+                var_x += (x[i] - mean_x) ** 2
+            var_x = var_x / (n - 1)
             sd_x = math.sqrt(var_x)
 
             for i in range(n):
@@ -1735,7 +1735,7 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
         if n > 3:
             xs = np.sort(rvs)  # We sort the data
             mean_x = sum(xs) / n
-            var_x = sum(x_i**2 for x_i in xs) / n - mean_x**2
+            var_x = sum((x_i - mean_x) ** 2 for x_i in xs) / n
             t = sum((i - 0.5 * (n + 1)) * xs[i - 1] for i in range(1, n + 1))
             d = t / ((n**2) * math.sqrt(var_x))
             stat_da = math.sqrt(n) * (d - 0.28209479) / 0.02998598
@@ -2387,8 +2387,8 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
             r3 = 0.0
 
             for i in range(n):
-                varpop_x += x[i] ** 2
-            varpop_x = varpop_x / n - mean_x**2
+                varpop_x += (x[i] - mean_x) ** 2
+            varpop_x = varpop_x / n
             sd_x = np.sqrt(varpop_x)
             for i in range(n):
                 y[i] = (x[i] - mean_x) / sd_x
-- 
2.43.0


From ab2021b1064f84203eecc0a7156efb7720d5b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 55/84] fix: Weibull maximum likelihood estimate is not limited
 to shapes below 50

---
 .../statistics/goodness_of_fit/weibull.py     | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index b691481..20a5966 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -2,7 +2,7 @@ from abc import ABC
 
 import numpy as np
 from numpy import histogram
-from scipy.optimize import minimize_scalar
+from scipy.optimize import brentq
 from scipy.special import gamma
 from scipy.stats import distributions
 from typing_extensions import override
@@ -761,18 +761,23 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         lv = -np.log(x)
         y = np.sort(lv)
 
-        def f1(toto, vect):
-            if toto != 0:
-                f1 = np.sum(vect) / len(vect)
-                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) + 1 / toto
-            else:
-                f1 = 100
-            return abs(f1)
-
-        result = minimize_scalar(f1, bounds=(0.0001, 50), args=(y,), method="bounded")
-        t = result.x
-        aux = np.sum(np.exp(-y * t)) / len(x)
-        ksi = -(1 / t) * np.log(aux)
+        # solve in units of the spread of the log sample, so that neither the scale nor the shape of
+        # the data limits the search
+        spread = np.std(y)
+        if spread == 0:
+            return {"eta": np.exp(-y[0]), "beta": np.inf, "y": np.zeros(len(x))}
+        z = (y - y[0]) / spread
+
+        def score(shape):
+            weights = np.exp(-z * shape)
+            return np.mean(z) - np.sum(z * weights) / np.sum(weights) - 1 / shape
+
+        upper = 50.0
+        while score(upper) < 0:
+            upper *= 2
+        shape = brentq(score, 1 / (4 * np.sqrt(len(x))), upper, xtol=1e-12)
+        t = shape / spread
+        ksi = y[0] - np.log(np.mean(np.exp(-z * shape))) / t
 
         y = -(y - ksi) * t
         return {"eta": np.exp(-ksi), "beta": t, "y": y}
-- 
2.43.0


From c7f457ec95e4c75a0ec2a728afe2db2130604233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 56/84] fix: censored Stein uniformity statistic averages over
 all pairs and accepts a list of censoring marks

---
 .../statistics/goodness_of_fit/uniform.py           | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7c61dd6..657db21 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -727,11 +727,12 @@ class CensoredSteinUniformGofStatistic(AbstractUniformGofStatistic):
         else:
             rvs_std = rvs.copy()
 
+        if censoring_indices is not None:
+            censoring_indices = np.asarray(censoring_indices)
+
         if censoring_indices is None or np.all(censoring_indices == 0):
             return SteinUniformGofStatistic(self.a, self.b).execute_statistic(rvs)
 
-        censoring_indices = np.asarray(censoring_indices)
-
         km_estimator = self._kaplan_meier(rvs_std, censoring_indices)
 
         statistic = self._compute_weighted_u_statistic(rvs_std, censoring_indices, km_estimator)
@@ -775,7 +776,6 @@ class CensoredSteinUniformGofStatistic(AbstractUniformGofStatistic):
                 weights[i] = 0
 
         total = 0
-        count = 0
 
         for i in range(n):
             if delta[i] == 0:
@@ -783,12 +783,9 @@ class CensoredSteinUniformGofStatistic(AbstractUniformGofStatistic):
                     if delta[j] == 0:
                         weight_ij = weights[i] * weights[j]
                         total += weight_ij * h1(rvs[i], rvs[j])
-                        count += 1
 
-        if count > 0:
-            statistic = 2 * total / count
-        else:
-            statistic = 0
+        # the inverse censoring weights make the sum stand for all n * (n - 1) / 2 pairs
+        statistic = 2 * total / (n * (n - 1)) if n > 1 else 0
 
         return statistic
 
-- 
2.43.0


From 6ac895338b1c308a4c0a6f36927d11087dbd660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 57/84] fix: power divergence with a power between -1 and 0 is
 finite with an empty bin

---
 src/pysatl_criterion/statistics/goodness_of_fit/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/common.py b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
index 3d651a4..a73d941 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/common.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
@@ -173,7 +173,7 @@ class Chi2Statistic(AbstractStatistic, ABC):
             terms = 2.0 * special.xlogy(f_exp, f_exp / f_obs)
         else:
             # General Cressie-Read power divergence.
-            terms = f_obs * ((f_obs / f_exp) ** lambda_ - 1)
+            terms = f_exp * (f_obs / f_exp) ** (lambda_ + 1) - f_obs
             terms /= 0.5 * lambda_ * (lambda_ + 1)
 
         return terms.sum()
-- 
2.43.0


From f11f6a8b74eb8f9eb2355ab076b6f7a62a53fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 58/84] fix: Kullback-Leibler log-normality statistics do not
 overflow on concentrated samples and are exact near r = 0

---
 .../statistics/goodness_of_fit/log_normal.py  | 128 +++++-------------
 1 file changed, 36 insertions(+), 92 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 7afe59b..0f01eab 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -6,6 +6,7 @@ from abc import ABC
 import numpy as np
 import scipy.stats as scipy_stats
 from scipy import integrate
+from scipy.special import factorial
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -209,6 +210,36 @@ class QuesenberryMillerLogNormalGofStatistic(AbstractLogNormalGofStatistic):
         return q
 
 
+def _kl_ratio(rvs):
+    """
+    Ratio of the Kullback-Leibler departure D_{n,r} to its asymptotic standard deviation sigma_r.
+
+    D_{n,r} does not depend on the location and scale of the log sample, so it is computed on the
+    standardized log sample, which cannot overflow. sigma_r uses the power series of
+    exp(r^2) (r^4 - 3 r^2 + 4) - (4 + r^2), whose leading terms cancel.
+
+    :param rvs: array of positive observations.
+    :return: function of r.
+    """
+    log_rvs = np.log(rvs)
+    z = (log_rvs - np.mean(log_rvs)) / np.std(log_rvs)  # MLE
+    skewness = np.mean(z**3)
+    k = np.arange(3, 120)
+    coefficients = (k - 2) ** 2 / factorial(k)
+
+    def ratio(r):
+        if abs(r) < 1e-3:
+            return -np.copysign(skewness, r) / np.sqrt(6)
+
+        shift = np.max(r * z)
+        weights = np.exp(r * z - shift)
+        mean_weight = np.mean(weights)
+        d = 2 * (np.log(mean_weight) + shift) - r * np.mean(weights * z) / mean_weight
+        return d / np.sqrt(np.sum(coefficients * (r * r) ** k))
+
+    return ratio
+
+
 class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
     """
     Supremum test for lognormality based on Kullback-Leibler divergences.
@@ -254,55 +285,11 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
 
         n = len(rvs)
 
-        # Estimate parameters
-        log_rvs = np.log(rvs)
-        sigma_hat = np.std(log_rvs, ddof=0)  # MLE
-
-        # Transform data
-        Y = rvs ** (1 / sigma_hat)
-        logY = np.log(Y)
-
-        mean_logY = np.mean(logY)
-        mean_logY2 = np.mean(logY**2)
-        mean_logY3 = np.mean(logY**3)
-
-        # D_{n,r} function
-        def D_n_r(r):
-            if abs(r) < 1e-8:
-                C = -mean_logY3 + 3 * mean_logY2 * mean_logY - 2 * (mean_logY**3)
-                return (np.sqrt(6) / 6) * C * (r**3)
-
-            Yr = Y**r
-            mean_Yr = np.mean(Yr)
-            mean_Yr_logY = np.mean(Yr * logY)
-
-            return 2 * np.log(mean_Yr) - r * mean_logY - r * mean_Yr_logY / mean_Yr
-
-        # sigma_r
-        def sigma_r(r):
-            if abs(r) < 1e-8:
-                return (abs(r) ** 3) / np.sqrt(6)
-
-            expr = np.exp(r**2) * (r**4 - 3 * (r**2) + 4) - (4 + r**2)
-
-            if expr < 1e-16:
-                return 1e-8
-            return np.sqrt(expr)
+        ratio = _kl_ratio(rvs)
 
         # Calculate supremum over r in [-5, 5]
-        r_grid = np.linspace(-5, 5, 1000)
-        values = []
-        for r in r_grid:
-            D = D_n_r(r)
-            sigma = sigma_r(r)
-            if sigma > 1e-10 and not np.isnan(D):  # Avoid division by zero
-                values.append(abs(D / sigma))
-
-        if not values:
-            return np.inf
-
-        T1 = np.sqrt(n) * np.max(values)
-        return T1
+        T1 = np.sqrt(n) * np.max([abs(ratio(r)) for r in np.linspace(-5, 5, 1000)])
+        return T1 if not np.isnan(T1) else float("inf")
 
     def calculate_critical_value(self, n, alpha=0.05):
         """
@@ -382,55 +369,12 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
 
         n = len(rvs)
 
-        log_rvs = np.log(rvs)
-        sigma_hat = np.std(log_rvs, ddof=0)
-
-        Y = rvs ** (1 / sigma_hat)
-        logY = np.log(Y)
-
-        mean_logY = np.mean(logY)
-        mean_logY2 = np.mean(logY**2)
-        mean_logY3 = np.mean(logY**3)
-
-        # Define D_n,r
-        def D_n_r(r):
-            if abs(r) < 1e-8:
-                C = -mean_logY3 + 3 * mean_logY2 * mean_logY - 2 * (mean_logY**3)
-                return (np.sqrt(6) / 6) * C * (r**3)
-
-            Yr = Y**r
-            mean_Yr = np.mean(Yr)
-            mean_Yr_logY = np.mean(Yr * logY)
-
-            return 2 * np.log(mean_Yr) - r * mean_logY - r * mean_Yr_logY / mean_Yr
-
-        # sigma_r
-        def sigma_r(r):
-            if abs(r) < 1e-8:
-                return (abs(r) ** 3) / np.sqrt(6)
-
-            expr = np.exp(r**2) * (r**4 - 3 * (r**2) + 4) - (4 + r**2)
-
-            if expr < 1e-16:
-                return 1e-8
-            return np.sqrt(expr)
-
-        # Integrand function
-        def integrand(r):
-            D = D_n_r(r)
-            sigma = sigma_r(r)
-
-            if abs(r) < 1e-8:
-                C = -mean_logY3 + 3 * mean_logY2 * mean_logY - 2 * (mean_logY**3)
-                return (C / 6) ** 2
-
-            ratio = D / sigma
-            return ratio * ratio
+        ratio = _kl_ratio(rvs)
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore")
 
-            result, error = integrate.quad(integrand, -5, 5, limit=100)
+            result, error = integrate.quad(lambda r: ratio(r) ** 2, -5, 5, limit=100)
 
         T2 = n * result
 
-- 
2.43.0


From 1c56d804f41ef640c7ed97cdb274750d251473a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 59/84] fix: Rossberg exponentiality statistic does not depend
 on the order of tied observations

---
 .../statistics/goodness_of_fit/exponent.py            | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index a3b0384..9cc4d64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -1113,6 +1113,7 @@ class RossbergExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Rossberg test statistic value.
         """
 
+        rvs = sorted(rvs)
         n = len(rvs)
         sh = 0
         sg = 0
@@ -1121,14 +1122,8 @@ class RossbergExponentialityGofStatistic(AbstractExponentialityGofStatistic):
             for i in range(n - 2):
                 for j in range(i + 1, n - 1):
                     for k in range(j + 1, n):
-                        if (
-                            rvs[i]
-                            + rvs[j]
-                            + rvs[k]
-                            - 2 * min(rvs[i], rvs[j], rvs[k])
-                            - max(rvs[i], rvs[j], rvs[k])
-                            < rvs[m]
-                        ):
+                        # middle minus smallest observation of the ordered triple
+                        if rvs[j] - rvs[i] < rvs[m]:
                             h += 1
             h = ((6 * math.factorial(n - 3)) / math.factorial(n)) * h
             sh += h
-- 
2.43.0


From ace94738b66bcd416b8b1bc709529c18f3bc69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 60/84] fix: criteria compute in floating point on integer
 samples

---
 .../statistics/goodness_of_fit/exponent.py            |  4 ++++
 .../goodness_of_fit/graph_goodness_of_fit.py          |  3 +++
 .../statistics/goodness_of_fit/log_normal.py          |  6 +++---
 .../statistics/goodness_of_fit/normal.py              |  7 +++++++
 .../statistics/goodness_of_fit/student.py             |  8 ++++++++
 .../statistics/goodness_of_fit/uniform.py             |  2 +-
 .../statistics/goodness_of_fit/weibull.py             | 11 +++++++++++
 7 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 9cc4d64..5cf7d61 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -200,6 +200,7 @@ class AhsanullahExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :param rvs: array of sample data.
         :return: Ahsanullah test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float).tolist()
 
         n = len(rvs)
         h = 0
@@ -507,6 +508,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :param rvs: array of sample data.
         :return: Frozini test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
 
         n = len(rvs)
         rvs = np.sort(rvs)
@@ -764,6 +766,7 @@ class HollanderProshanExponentialityGofStatistic(AbstractExponentialityGofStatis
         :param rvs: array of sample data.
         :return: Hollander-Proshan test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float).tolist()
 
         n = len(rvs)
         t = 0
@@ -919,6 +922,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :param p: quantile parameter for Lorenz curve (default is 0.5).
         :return: Lorenz test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
 
         n = len(rvs)
         rvs = np.sort(rvs)
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 7e48558..9d3f5f9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -14,6 +14,7 @@ class AbstractGraphTestStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def execute_statistic(self, rvs, **kwargs) -> float | float64:
+        rvs = np.asarray(rvs, dtype=float).tolist()
         dist = self._compute_dist(rvs)
 
         adjacency_list = self._make_adjacency_list(rvs, dist)
@@ -187,6 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum clique.
         """
+        rvs = np.asarray(rvs, dtype=float).tolist()
         dist = self._compute_dist(rvs)
         rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
@@ -228,6 +230,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         if len(rvs) == 0:
             return 0
 
+        rvs = np.asarray(rvs, dtype=float).tolist()
         dist = self._compute_dist(rvs)
         rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 0f01eab..7ed4377 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -278,7 +278,7 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Supremum test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -362,7 +362,7 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Integral test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -437,7 +437,7 @@ def _create_lognormal_class(normal_cls):
             :param rvs: array of observed data samples.
             :return: test statistic value.
             """
-            rvs_arr = np.array(rvs)
+            rvs_arr = np.array(rvs, dtype=float)
 
             if np.any(rvs_arr <= 0):
                 return float("inf")
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b468877..5fa54db 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -675,6 +675,7 @@ class EppsPulleyNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         x = np.sort(rvs)
         x_mean = np.mean(x)
@@ -770,6 +771,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         return self.stat10(rvs)
 
     @staticmethod
@@ -1293,6 +1295,7 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         return self.stat32(rvs)
 
     @staticmethod
@@ -1731,6 +1734,7 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         if n > 3:
             xs = np.sort(rvs)  # We sort the data
@@ -1898,6 +1902,7 @@ class GMGNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         return self.stat33(rvs)
 
     @staticmethod
@@ -1969,6 +1974,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         return self.stat16(rvs)
 
     def stat16(self, x):
@@ -2311,6 +2317,7 @@ class SpiegelhalterNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         return self.stat41(rvs)
 
     @staticmethod
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 640c8df..cccd97d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -110,6 +110,7 @@ class KolmogorovSmirnovStudentGofStatistic(AbstractStudentGofStatistic, KSStatis
         :param rvs: array of sample data.
         :return: Kolmogorov-Smirnov test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         rvs = np.sort(rvs)
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
@@ -151,6 +152,7 @@ class AndersonDarlingStudentGofStatistic(AbstractStudentGofStatistic, ADStatisti
         :param rvs: array of sample data.
         :return: Anderson-Darling test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         y = np.sort(rvs)
         # Standardize the data
         standardized = (y - self.loc) / self.scale
@@ -193,6 +195,7 @@ class CramerVonMisesStudentGofStatistic(AbstractStudentGofStatistic, CrammerVonM
         :param rvs: array of sample data.
         :return: Cramer-von Mises test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         rvs = np.sort(rvs)
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
@@ -238,6 +241,7 @@ class KuiperStudentGofStatistic(AbstractStudentGofStatistic):
         :param rvs: array of sample data.
         :return: Kuiper's test statistic value (D+ + D-).
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         rvs = np.sort(rvs)
         # Standardize the data
@@ -289,6 +293,7 @@ class WatsonStudentGofStatistic(AbstractStudentGofStatistic):
         :param rvs: array of sample data.
         :return: Watson's U^2 test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         rvs = np.sort(rvs)
         # Standardize the data
@@ -346,6 +351,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         :param rvs: array of sample data.
         :return: Zhang's Zc test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         rvs = np.sort(rvs)
         # Standardize the data
@@ -401,6 +407,7 @@ class ZhangZaStudentGofStatistic(AbstractStudentGofStatistic):
         :param rvs: array of sample data.
         :return: Zhang's Za test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         rvs = np.sort(rvs)
         # Standardize the data
@@ -507,6 +514,7 @@ class ChiSquareStudentGofStatistic(AbstractStudentGofStatistic):
         :param rvs: array of sample data.
         :return: Chi-square test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         # Standardize the data
         standardized = (np.array(rvs) - self.loc) / self.scale
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 657db21..aeaf64f 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -60,7 +60,7 @@ class AbstractUniformGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
         :return: validated numpy array.
         :raises ValueError: if any value is outside the interval [a, b].
         """
-        rvs_array = np.asarray(rvs)
+        rvs_array = np.asarray(rvs, dtype=float)
         if np.any((rvs_array < self.a) | (rvs_array > self.b)):
             raise ValueError(
                 f"Uniform distribution values must be in the interval [{self.a}, {self.b}]"
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 20a5966..e525cd2 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -255,6 +255,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         :param rvs: array of observed data samples.
         :return: Anderson-Darling test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         rvs = np.log(rvs)
         y = np.sort(rvs)
         xbar, s = distributions.gumbel_l.fit(y)
@@ -352,6 +353,7 @@ class SbWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: WPP test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         lv = np.log(rvs)
         y = np.sort(lv)
@@ -409,6 +411,7 @@ class ST2WeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: chi-square-like statistic value based on kurtosis.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         lv = np.log(rvs)
         y = np.sort(lv)
@@ -462,6 +465,7 @@ class ST1WeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: chi-square-like statistic value based on skewness.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         lv = np.log(rvs)
         y = np.sort(lv)
@@ -514,6 +518,7 @@ class RSBWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: WPP test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         interval = np.arange(1, n + 1)
 
@@ -577,6 +582,7 @@ class NormalizeSpaceWeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: normalized spacing test statistic value.
         :raises ValueError: if MSF test is used with left censoring (s != 0).
         """
+        rvs = np.asarray(rvs, dtype=float)
         m = len(rvs)
         s = 0  # can be defined
         r = 0  # can be defined
@@ -755,6 +761,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: dictionary with 'eta' (scale), 'beta' (shape), and transformed 'y'.
         :raises ValueError: if data contains non-positive values.
         """
+        x = np.asarray(x, dtype=float)
         if np.min(x) <= 0:
             raise ValueError("Data x is not a positive sample")
 
@@ -794,6 +801,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param type_: code of the specific test to run (OK, SB, RSB, REJG, SPP, ST1, ST2).
         :return: corresponding WPP test statistic value.
         """
+        x = np.asarray(x, dtype=float)
         n = len(x)
         lv = np.log(x)
         y = np.sort(lv)
@@ -1247,6 +1255,7 @@ class KullbackLeiblerWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param m: window size for entropy estimation (default is n//2).
         :return: KL divergence test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         m = n // 2 if m is None else m
 
@@ -1289,6 +1298,7 @@ class LaplaceTransformWeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: Laplace transform test statistic value.
         :raises ValueError: if invalid type is specified.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
 
         if _type == "LT2_WEIBULL":
@@ -1439,6 +1449,7 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: CQ test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         s1 = -0.1
         s2 = 0.02
         v1 = 1.59
-- 
2.43.0


From 74bbe03c4e98b78e3292dd3e53b276d0c159ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 61/84] fix: LOS Weibull statistic is NaN or infinite when the
 extremes are tied

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index e525cd2..3a29e45 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -608,7 +608,9 @@ class NormalizeSpaceWeibullGofStatistic(AbstractWeibullGofStatistic):
             z = []
             for i in range(1, m - 1):
                 z.append(np.sum(G2[:i]) / np.sum(G2))
-            z = sorted(z)
+            # zero spacings at either end (ties at the extremes) give 0, or 1 up to rounding
+            eps = np.finfo(float).eps
+            z = sorted(np.clip(z, eps, 1 - eps))
             z1 = sorted(z, reverse=True)
             interval = range(1, m - 1)
             NS_statistic = -(m - 2) - (1 / (m - 2)) * np.sum(
-- 
2.43.0


From b131778c5cb55f36f5f68cf28a60dd5889309246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 62/84] fix: Min-Toshiyuki statistics are infinite when an
 observation's cdf rounds to one

---
 src/pysatl_criterion/statistics/goodness_of_fit/common.py | 6 ++++--
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py  | 3 ++-
 .../statistics/goodness_of_fit/weibull.py                 | 8 ++++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/common.py b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
index a73d941..b3aaf53 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/common.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
@@ -184,13 +184,15 @@ class MinToshiyukiStatistic(AbstractStatistic, ABC):
     def alternative(self) -> Alternative:
         return TwoSidedAlternative()
 
-    def do_execute_statistic(self, cdf_vals):
+    def do_execute_statistic(self, cdf_vals, sf_vals=None):
         n = len(cdf_vals)
+        if sf_vals is None:
+            sf_vals = 1 - cdf_vals
         d_plus = np.arange(1.0, n + 1) / n - cdf_vals
         d_minus = cdf_vals - np.arange(0.0, n) / n
         d = np.maximum.reduce([d_plus, d_minus])
 
-        fi = 1 / (cdf_vals * (1 - cdf_vals))
+        fi = 1 / (cdf_vals * sf_vals)
 
         s = np.sum(d * np.sqrt(fi))
         return s / np.sqrt(n)
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index db5fd17..6ab35a9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -545,7 +545,8 @@ class MinToshiyukiGammaGofStatistic(AbstractGammaGofStatistic, MinToshiyukiStati
 
         sorted_rvs = np.sort(np.asarray(rvs))
         cdf_vals = scipy_stats.gamma.cdf(sorted_rvs, a=self.alpha, scale=1 / self.beta)
-        return MinToshiyukiStatistic.do_execute_statistic(self, cdf_vals)
+        sf_vals = scipy_stats.gamma.sf(sorted_rvs, a=self.alpha, scale=1 / self.beta)
+        return MinToshiyukiStatistic.do_execute_statistic(self, cdf_vals, sf_vals)
 
 
 class AbstractBinnedGammaGofStatistic(AbstractGammaGofStatistic, Chi2Statistic, ABC):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 3a29e45..25e426e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -8,7 +8,10 @@ from scipy.stats import distributions
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
-from pysatl_criterion.core.distributions.weibull import generate_weibull_cdf
+from pysatl_criterion.core.distributions.weibull import (
+    generate_weibull_cdf,
+    generate_weibull_logsf,
+)
 from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
 from pysatl_criterion.statistics.alternative import (
     Alternative,
@@ -98,7 +101,8 @@ class MinToshiyukiWeibullGofStatistic(AbstractWeibullGofStatistic, MinToshiyukiS
         """
         rvs = np.sort(rvs)
         cdf_vals = generate_weibull_cdf(rvs, a=self.a, k=self.k)
-        return super().do_execute_statistic(cdf_vals)
+        sf_vals = np.exp(generate_weibull_logsf(rvs, a=self.a, k=self.k))
+        return super().do_execute_statistic(cdf_vals, sf_vals)
 
 
 class Chi2PearsonWeibullGofStatistic(AbstractWeibullGofStatistic, Chi2Statistic):
-- 
2.43.0


From 0d0671cf7f1ad8b55685a3385bae97fdd4c33fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 63/84] fix: Moran gamma statistic raises on distinct
 observations far in the upper tail

---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 6ab35a9..3fd587f 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -496,7 +496,11 @@ class MoranGammaGofStatistic(AbstractGammaGofStatistic):
             raise ValueError("At least one observation is required to compute the Moran statistic.")
 
         cdf_vals = scipy_stats.gamma.cdf(sorted_rvs, a=self.alpha, scale=1 / self.beta)
-        spacings = np.diff(np.concatenate(([0.0], cdf_vals, [1.0])))
+        sf_vals = scipy_stats.gamma.sf(sorted_rvs, a=self.alpha, scale=1 / self.beta)
+        lower = np.diff(np.concatenate(([0.0], cdf_vals, [1.0])))
+        upper = -np.diff(np.concatenate(([1.0], sf_vals, [0.0])))
+        # above the median the survival function resolves spacings that vanish next to one
+        spacings = np.where(np.concatenate(([0.0], cdf_vals)) < 0.5, lower, upper)
         if np.any(spacings <= 0):
             raise ValueError("Spacings must be strictly positive for the Moran statistic.")
 
-- 
2.43.0


From d41b4177d5adb532450914f3977d46b15e605500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 64/84] fix: Weibull chi-squared statistic is infinite when a
 cell lies far in the upper tail

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 25e426e..b84545f 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -143,8 +143,10 @@ class Chi2PearsonWeibullGofStatistic(AbstractWeibullGofStatistic, Chi2Statistic)
         n = len(rvs)
         (observed, bin_edges) = histogram(rvs_sorted, bins=int(np.ceil(np.sqrt(n))))
         observed = observed / n
-        expected = generate_weibull_cdf(bin_edges, a=self.a, k=self.k)
-        expected = np.diff(expected)
+        edges_cdf = generate_weibull_cdf(bin_edges, a=self.a, k=self.k)
+        edges_sf = np.exp(generate_weibull_logsf(bin_edges, a=self.a, k=self.k))
+        # above the median the survival function resolves cells that vanish next to one
+        expected = np.where(edges_cdf[:-1] < 0.5, np.diff(edges_cdf), -np.diff(edges_sf))
         return super().do_execute_statistic(observed, expected, 1)
 
 
-- 
2.43.0


From 559adb4dcd8b450400b1820cf7f65d28fd57cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 65/84] fix: Student criteria with a location or scale were
 simulated and stored as the standard Student null

---
 .../core/distributions/student.py                |  8 ++++++--
 src/pysatl_criterion/generator/generators.py     | 16 ++++++++++++----
 .../statistics/goodness_of_fit/student.py        |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/student.py b/src/pysatl_criterion/core/distributions/student.py
index bf648d9..914ecce 100644
--- a/src/pysatl_criterion/core/distributions/student.py
+++ b/src/pysatl_criterion/core/distributions/student.py
@@ -1,7 +1,7 @@
 from scipy.stats import t
 
 
-def generate_t(size, df=2):
+def generate_t(size, df=2, loc=0, scale=1):
     """
     Generate random samples from the Student's t-distribution.
 
@@ -17,6 +17,10 @@ def generate_t(size, df=2):
     df : float, optional
         Degrees of freedom of the distribution. Must be greater than 0.
         Default is 2.
+    loc : float, optional
+        Location of the distribution. Default is 0.
+    scale : float, optional
+        Scale of the distribution. Must be greater than 0. Default is 1.
 
     Returns
     -------
@@ -39,4 +43,4 @@ def generate_t(size, df=2):
     >>> generate_t(5, df=3)
     array([...])
     """
-    return t.rvs(df=df, size=size)
+    return t.rvs(df=df, loc=loc, scale=scale, size=size)
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index 6212111..c86c537 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -261,16 +261,24 @@ class TRVSGenerator(AbstractRVSGenerator):
     ----------
     df : float
         Degrees of freedom.
+    loc : float, optional
+        Location. Reported only when it or the scale is not standard.
+    scale : float, optional
+        Scale. Reported only when it or the location is not standard.
     """
 
-    def __init__(self, df, **kwargs):
+    def __init__(self, df, loc=0, scale=1, **kwargs):
         super().__init__(**kwargs)
         self.df = df
+        self.loc = loc
+        self.scale = scale
 
     @override
     def parameters(self) -> dict[str, float]:
         """Return Student's t-distribution parameters."""
-        return {"df": self.df}
+        if self.loc == 0 and self.scale == 1:
+            return {"df": self.df}
+        return {"df": self.df, "loc": self.loc, "scale": self.scale}
 
     @staticmethod
     @override
@@ -281,12 +289,12 @@ class TRVSGenerator(AbstractRVSGenerator):
     @override
     def code(self):
         """Return unique generator code."""
-        return super()._convert_to_code([self.distribution_type(), self.df])
+        return super()._convert_to_code([self.distribution_type(), *self.parameters().values()])
 
     @override
     def generate(self, size):
         """Generate Student's t-distributed random sample."""
-        return generate_t(size=size, df=self.df)
+        return generate_t(size=size, df=self.df, loc=self.loc, scale=self.scale)
 
 
 class TukeyRVSGenerator(AbstractRVSGenerator):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index cccd97d..03be769 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -32,7 +32,7 @@ class AbstractStudentGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"df": self.df})
+        return GoodnessOfFitHypothesis({"df": self.df, "loc": self.loc, "scale": self.scale})
 
     @staticmethod
     @override
-- 
2.43.0


From a158a965cbebaf35b858558979d2fb533577af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 66/84] fix: get_available_criteria is empty unless the
 criteria happen to be imported already

---
 src/pysatl_criterion/utils/statistic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index a093d06..e9aec09 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -1,3 +1,4 @@
+import importlib
 import inspect
 from typing import Any
 
@@ -20,6 +21,8 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
+    _load_criteria()
+
     return [
         cls.short_code()
         for cls in __get_all_subclasses(AbstractGoodnessOfFitStatistic)
@@ -27,6 +30,11 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     ]
 
 
+def _load_criteria() -> None:
+    """Import concrete criterion classes so subclass discovery can find them."""
+    importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")
+
+
 def __get_all_subclasses(cls: type[Any]) -> set[type[AbstractGoodnessOfFitStatistic]]:
     """
     Return all direct and indirect subclasses of a class.
-- 
2.43.0


From c8b8e1e8212c5cc7e8a52096d2bd93850699431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 67/84] fix: contaminated normal generators return an empty
 sample for size zero

---
 src/pysatl_criterion/core/distributions/lo_con_norm.py    | 4 ++--
 src/pysatl_criterion/core/distributions/mix_con_norm.py   | 4 ++--
 src/pysatl_criterion/core/distributions/scale_con_norm.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/lo_con_norm.py b/src/pysatl_criterion/core/distributions/lo_con_norm.py
index 0cfc87e..fbfe928 100644
--- a/src/pysatl_criterion/core/distributions/lo_con_norm.py
+++ b/src/pysatl_criterion/core/distributions/lo_con_norm.py
@@ -49,6 +49,6 @@ def generate_lo_con_norm(size, p=0.5, a=0) -> list[float]:
             item = norm.rvs(size=1, loc=a)
         else:
             item = norm.rvs(size=1)
-        result.append(item)
+        result.extend(item.tolist())
 
-    return np.concatenate(result, axis=0).tolist()
+    return result
diff --git a/src/pysatl_criterion/core/distributions/mix_con_norm.py b/src/pysatl_criterion/core/distributions/mix_con_norm.py
index 99547d4..c94df39 100644
--- a/src/pysatl_criterion/core/distributions/mix_con_norm.py
+++ b/src/pysatl_criterion/core/distributions/mix_con_norm.py
@@ -52,6 +52,6 @@ def generate_mix_con_norm(size, p=0.5, a=0, b=1) -> list[float]:
             item = norm.rvs(size=1, loc=a, scale=b)
         else:
             item = norm.rvs(size=1)
-        result.append(item)
+        result.extend(item.tolist())
 
-    return np.concatenate(result, axis=0).tolist()
+    return result
diff --git a/src/pysatl_criterion/core/distributions/scale_con_norm.py b/src/pysatl_criterion/core/distributions/scale_con_norm.py
index 7ea71c9..6ed27b3 100644
--- a/src/pysatl_criterion/core/distributions/scale_con_norm.py
+++ b/src/pysatl_criterion/core/distributions/scale_con_norm.py
@@ -51,6 +51,6 @@ def generate_scale_con_norm(size, p=0.5, b=0) -> list[float]:
             item = norm.rvs(size=1, scale=b)
         else:
             item = norm.rvs(size=1)
-        result.append(item)
+        result.extend(item.tolist())
 
-    return np.concatenate(result, axis=0).tolist()
+    return result
-- 
2.43.0


From 7f17ba22b138a05785dcfa0599fa961cb003b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 68/84] fix: log-cdf and log-survival of the Weibull helper
 stay finite in the tails

---
 .../core/distributions/weibull.py             | 41 ++++++++++++++++++-
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/weibull.py b/src/pysatl_criterion/core/distributions/weibull.py
index bf31bd7..d22eed9 100644
--- a/src/pysatl_criterion/core/distributions/weibull.py
+++ b/src/pysatl_criterion/core/distributions/weibull.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.stats import exponweib
 
 
@@ -87,7 +88,7 @@ def generate_weibull_logcdf(rvs, a=1, k=5):
     >>> generate_weibull_logcdf([0.5, 1.0], a=1, k=2)
     array([...])
     """
-    return exponweib.logcdf(rvs, a=a, c=k)
+    return _log_cdf_and_sf(rvs, a, k)[0]
 
 
 def generate_weibull_logsf(rvs, a=1, k=5):
@@ -117,4 +118,40 @@ def generate_weibull_logsf(rvs, a=1, k=5):
     >>> generate_weibull_logsf([0.5, 1.0], a=1, k=2)
     array([...])
     """
-    return exponweib.logsf(rvs, a=a, c=k)
+    return _log_cdf_and_sf(rvs, a, k)[1]
+
+
+def _log_cdf_and_sf(rvs, a, k):
+    """
+    Compute the log-CDF and log-SF in log space, so that they stay finite where the CDF or the
+    survival function underflows.
+
+    Parameters
+    ----------
+    rvs : array-like
+        Input values.
+    a : float
+        Shape parameter.
+    k : float
+        Shape parameter.
+
+    Returns
+    -------
+    tuple of numpy.ndarray
+        Log-CDF and log-SF values.
+    """
+    if not (a > 0 and k > 0):
+        return exponweib.logcdf(rvs, a=a, c=k), exponweib.logsf(rvs, a=a, c=k)
+    x = np.asarray(rvs, dtype=float)
+    with np.errstate(all="ignore"):
+        log_z = k * np.log(np.maximum(x, 0.0))
+        z = np.exp(log_z)
+        # log(1 - exp(-z)), which is log(z) when z underflows
+        log_base = np.where(z < 0.5, np.log(-np.expm1(-z)), np.log1p(-np.exp(-z)))
+        log_cdf = a * np.where(z < 1e-300, log_z, log_base)
+        log_sf = np.where(
+            log_cdf < -0.5, np.log1p(-np.exp(log_cdf)), np.log(-np.expm1(log_cdf))
+        )
+        # the survival function is a * exp(-z) where the CDF rounds to one
+        log_sf = np.where(log_cdf > -1e-300, np.log(a) - z, log_sf)
+    return log_cdf[()], log_sf[()]
-- 
2.43.0


From 62fb08a3ea69ae4471424bbfedb1e59880665be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 69/84] fix: log-normal descriptor lists the parameters of the
 log-normal generator

---
 src/pysatl_criterion/distribution/distributions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..09d20c6 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -265,12 +265,16 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         """
         Return parameters for the log normal distribution.
 
-        :return: descriptors for logarithmic mean and variance.
+        :return: descriptors for the mean and standard deviation of the logarithm.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
+            DistributionParameterDescriptor("μ", "mu", "Mean of the logarithm", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ",
+                "s",
+                "Standard deviation of the logarithm. σ > 0",
+                1,
+                PositiveNumberValidator(),
             ),
         ]
 
-- 
2.43.0


From 62062b7b621274c37bbd37ff18ee115761944cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 70/84] fix: default parameters of the inverse Gaussian,
 Gompertz and gamma distributions are valid

---
 src/pysatl_criterion/core/distributions/gamma.py    | 4 ++--
 src/pysatl_criterion/core/distributions/invgauss.py | 4 ++--
 src/pysatl_criterion/distribution/distributions.py  | 2 +-
 src/pysatl_criterion/generator/generators.py        | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/gamma.py b/src/pysatl_criterion/core/distributions/gamma.py
index 391c075..78d128e 100644
--- a/src/pysatl_criterion/core/distributions/gamma.py
+++ b/src/pysatl_criterion/core/distributions/gamma.py
@@ -1,7 +1,7 @@
 from scipy.stats import gamma
 
 
-def generate_gamma(size, alfa=0, beta=1):
+def generate_gamma(size, alfa=1, beta=1):
     """
     Generate random samples from the Gamma distribution.
 
@@ -18,7 +18,7 @@ def generate_gamma(size, alfa=0, beta=1):
         returns an array with the specified shape.
     alfa : float, optional
         Shape parameter (α) of the Gamma distribution.
-        Must be greater than 0. Default is 0.
+        Must be greater than 0. Default is 1.
     beta : float, optional
         Rate parameter (β) of the Gamma distribution.
         Must be greater than 0. Default is 1.
diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 6b4b2dd..8f84d77 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -1,7 +1,7 @@
 from scipy.stats import invgauss
 
 
-def generate_invgauss(size, mu=0, lam=1):
+def generate_invgauss(size, mu=1, lam=1):
     """
     Generate random samples from the inverse Gaussian (Wald) distribution.
 
@@ -18,7 +18,7 @@ def generate_invgauss(size, mu=0, lam=1):
         returns an array with the specified shape.
     mu : float, optional
         Shape parameter of the distribution. Must be greater than 0.
-        Default is 0.
+        Default is 1.
     lam : float, optional
         Scale parameter of the distribution. Must be greater than 0.
         Default is 1.
diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 09d20c6..aac17fe 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -416,7 +416,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index c86c537..5ed5546 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -725,13 +725,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
@@ -801,13 +801,13 @@ class GompertzGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    eta : float, default=0
+    eta : float, default=1
         Shape parameter.
     b : float, default=1
         Scale parameter.
     """
 
-    def __init__(self, eta=0, b=1, **kwargs):
+    def __init__(self, eta=1, b=1, **kwargs):
         super().__init__(**kwargs)
         self.eta = eta
         self.b = b
-- 
2.43.0


From 8dc3a3c9643cc2a92e5e7d5b7a5fb7a896377fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 71/84] fix: Rice descriptor validates the stated range of nu

---
 src/pysatl_criterion/distribution/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index aac17fe..011f331 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -654,6 +654,7 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "Distance between the reference point and the center of the bivariate "
                 "distribution. v >= 0,",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
-- 
2.43.0


From 0d1cdc4f35c4266e7bf4b5d5c935b4e52c273903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 72/84] fix: sample moments around a centre work column by
 column on two-dimensional samples

---
 src/pysatl_criterion/core/distributions/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/sample.py b/src/pysatl_criterion/core/distributions/sample.py
index 2cbc7a2..354150c 100644
--- a/src/pysatl_criterion/core/distributions/sample.py
+++ b/src/pysatl_criterion/core/distributions/sample.py
@@ -35,7 +35,9 @@ def moment(a, mom=1, center=None):
     >>> moment([1, 2, 3], mom=2)
     array([...])
     """
-    return scipy_moment(a=a, moment=mom, center=0 if center is None else center)
+    if center is not None:
+        a = np.subtract(a, center)
+    return scipy_moment(a=a, moment=mom, center=0)
 
 
 def central_moment(a, mom=1):
@@ -45,4 +47,4 @@ def central_moment(a, mom=1):
     The central moment is computed relative to the sample mean:
     """
     mu = np.mean(a, axis=0)
-    return scipy_moment(a=a, moment=mom, center=mu)
+    return scipy_moment(a=np.subtract(a, mu), moment=mom, center=0)
-- 
2.43.0


From bc2b6fd0bdfc0d6296c7bc076b08467abaf52d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 73/84] fix: storing from several threads at once does not
 corrupt memory

---
 .../persistence/sqlalchemy/alchemy_decorator.py            | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 03e67e9..b812d1a 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -24,8 +24,6 @@ class CompressedFloatArray(TypeDecorator):
         """
         super().__init__()
         self.use_float32 = use_float32
-        self.compressor = zstd.ZstdCompressor(write_checksum=True)
-        self.decompressor = zstd.ZstdDecompressor()
 
     def process_bind_param(self, value: list[float] | None, dialect):
         """
@@ -42,7 +40,8 @@ class CompressedFloatArray(TypeDecorator):
         dtype_code = self.DTYPE_FLOAT32 if self.use_float32 else self.DTYPE_FLOAT64
 
         arr = np.asarray(value, dtype=dtype)
-        compressed = self.compressor.compress(arr.tobytes())
+        # zstd (de)compressors must not be shared between threads, and this type is
+        compressed = zstd.ZstdCompressor(write_checksum=True).compress(arr.tobytes())
 
         # header: version(1B), dtype_code(1B), length(4B)
         header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr))
@@ -74,7 +73,7 @@ class CompressedFloatArray(TypeDecorator):
 
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
-        decompressed_bytes = self.decompressor.decompress(compressed)
+        decompressed_bytes = zstd.ZstdDecompressor().decompress(compressed)
         arr = np.frombuffer(decompressed_bytes, dtype=dtype)
         if len(arr) != length:
             raise ValueError(f"Expected {length} values, found {len(arr)}")
-- 
2.43.0


From f531d3126fe2f697604a2915f9db1c2060a7fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 74/84] fix: limit distributions with undefined values gave NaN
 critical values and always rejected

---
 .../calculator/critical_value_calculator.py   | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index cb888b4..7d58436 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -6,6 +6,21 @@ from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import
 )
 
 
+def _quantile(limit_distribution: list[float], q: float) -> float:
+    """
+    Calculate a quantile of the limit distribution.
+
+    :param limit_distribution: simulated or theoretical limit distribution values.
+    :param q: quantile order.
+    :return: quantile of the limit distribution.
+    :raises ValueError: if the quantile is not a number.
+    """
+    quantile = float(np.quantile(limit_distribution, q=q))
+    if np.isnan(quantile):
+        raise ValueError("Limit distribution must contain numbers only.")
+    return quantile
+
+
 class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
     """
     Critical value calculator for left-tailed tests.
@@ -24,7 +39,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        return float(np.quantile(limit_distribution, q=significance_level))
+        return _quantile(limit_distribution, q=significance_level)
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -45,7 +60,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        return float(np.quantile(limit_distribution, q=1 - significance_level))
+        return _quantile(limit_distribution, q=1 - significance_level)
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -67,7 +82,7 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :return: tuple of lower and upper critical values.
         """
         sl = significance_level / 2
-        left = float(np.quantile(limit_distribution, q=sl))
-        right = float(np.quantile(limit_distribution, q=1 - sl))
+        left = _quantile(limit_distribution, q=sl)
+        right = _quantile(limit_distribution, q=1 - sl)
 
         return left, right
-- 
2.43.0


From ddfeb5c1ebb72fe626b236982cd48dd60ff8a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 75/84] fix: a statistic that is not a number was decided as a
 rejection

---
 .../critical_area/critical_areas.py           | 16 +++++++++++++
 .../p_value/calculator/p_value_calculator.py  | 24 ++++++++++++++-----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/critical_area/critical_areas.py b/src/pysatl_criterion/hypothesis_testing/critical_values/critical_area/critical_areas.py
index dfced6d..a4c7ab9 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/critical_area/critical_areas.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/critical_area/critical_areas.py
@@ -1,8 +1,21 @@
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.critical_area.model import CriticalArea
 
 
+def _check_number(value: float) -> None:
+    """
+    Refuse a value that is not a number.
+
+    :param value: test statistic value to check.
+    :raises ValueError: if the value is not a number.
+    """
+    if math.isnan(value):
+        raise ValueError("Statistic value must be a number.")
+
+
 class LeftCriticalArea(CriticalArea):
     """
     Critical area for left-tailed hypothesis test.
@@ -21,6 +34,7 @@ class LeftCriticalArea(CriticalArea):
         :param value: test statistic value to check.
         :return: True if value is in acceptance region, False otherwise.
         """
+        _check_number(value)
         return value >= self.critical_value
 
 
@@ -42,6 +56,7 @@ class RightCriticalArea(CriticalArea):
         :param value: test statistic value to check.
         :return: True if value is in acceptance region, False otherwise.
         """
+        _check_number(value)
         return value <= self.critical_value
 
 
@@ -65,4 +80,5 @@ class TwoSidedCriticalArea(CriticalArea):
         :param value: test statistic value to check.
         :return: True if value is in acceptance region, False otherwise.
         """
+        _check_number(value)
         return self.left_cv <= value <= self.right_cv
diff --git a/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
index 7359e02..1a1d36a 100644
--- a/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
@@ -1,9 +1,24 @@
+import numpy as np
 import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.p_value.calculator.model import PValueCalculator
 
 
+def _cdf(limit_distribution: list[float], statistic_value: float) -> float:
+    """
+    Evaluate the empirical distribution function of the limit distribution.
+
+    :param limit_distribution: simulated or theoretical limit distribution values.
+    :param statistic_value: computed statistic value for the observed sample.
+    :return: fraction of limit distribution values not above the statistic value.
+    :raises ValueError: if the statistic value is not a number.
+    """
+    if np.isnan(statistic_value):
+        raise ValueError("Statistic value must be a number.")
+    return float(scipy_stats.ecdf(limit_distribution).cdf.evaluate(statistic_value))
+
+
 class LeftPValueCalculator(PValueCalculator):
     """
     P-value calculator for left-tailed tests.
@@ -22,8 +37,7 @@ class LeftPValueCalculator(PValueCalculator):
         :param statistic_value: computed statistic value for the observed sample.
         :return: lower-tail p-value.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        cdf_value = float(ecdf.cdf.evaluate(statistic_value))
+        cdf_value = _cdf(limit_distribution, statistic_value)
         return cdf_value
 
 
@@ -45,8 +59,7 @@ class RightPValueCalculator(PValueCalculator):
         :param statistic_value: computed statistic value for the observed sample.
         :return: upper-tail p-value.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        cdf_value = float(ecdf.cdf.evaluate(statistic_value))
+        cdf_value = _cdf(limit_distribution, statistic_value)
         return 1.0 - cdf_value
 
 
@@ -68,6 +81,5 @@ class TwoSidedPValueCalculator(PValueCalculator):
         :param statistic_value: computed statistic value for the observed sample.
         :return: two-sided p-value.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        cdf_value = float(ecdf.cdf.evaluate(statistic_value))
+        cdf_value = _cdf(limit_distribution, statistic_value)
         return 2.0 * min(cdf_value, 1.0 - cdf_value)
-- 
2.43.0


From cc428075c1850e3506754176350b9460bb45424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 76/84] fix: beta chi-squared statistic is not a number or
 infinite when cells have tiny probability

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py   | 6 ++++--
 src/pysatl_criterion/statistics/goodness_of_fit/common.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 6b13b79..7a3ff95 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -313,8 +313,10 @@ class Chi2PearsonBetaGofStatistic(AbstractBetaGofStatistic, Chi2Statistic):
         observed, bin_edges = np.histogram(rvs_sorted, bins=num_bins, range=(0, 1))
 
         # Calculate expected frequencies
-        expected_cdf = scipy_stats.beta.cdf(bin_edges, self.alpha, self.beta)
-        expected = np.diff(expected_cdf) * n
+        edges_cdf = scipy_stats.beta.cdf(bin_edges, self.alpha, self.beta)
+        edges_sf = scipy_stats.beta.sf(bin_edges, self.alpha, self.beta)
+        # above the median the survival function resolves cells that vanish next to one
+        expected = n * np.where(edges_cdf[:-1] < 0.5, np.diff(edges_cdf), -np.diff(edges_sf))
 
         return Chi2Statistic.do_execute_statistic(self, observed, expected, self.lambda_)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/common.py b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
index b3aaf53..49ecddf 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/common.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
@@ -162,6 +162,10 @@ class Chi2Statistic(AbstractStatistic, ABC):
         # the test statistic.  We use some specialized code for a few special
         # cases of lambda_.
         f_obs = np.array(f_obs)
+        f_exp = np.asarray(f_exp)
+        # a cell with neither observations nor probability contributes nothing
+        impossible = (f_obs == 0) & (f_exp == 0)
+        f_obs, f_exp = f_obs[~impossible], f_exp[~impossible]
         if lambda_ == 1:
             # Pearson's chi-squared statistic
             terms = (f_obs - f_exp) ** 2 / f_exp
-- 
2.43.0


From 1cfb140e84c39bc5a445389f2d5ca7de5e6a857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 77/84] fix: samples with missing values gave finite statistics
 that were decided as if complete

---
 .../statistics/goodness_of_fit/beta.py            |  2 +-
 .../statistics/goodness_of_fit/exponent.py        | 10 ++++++++++
 .../statistics/goodness_of_fit/gamma.py           |  2 ++
 .../goodness_of_fit/graph_goodness_of_fit.py      | 15 ++++++++++++---
 .../statistics/goodness_of_fit/log_normal.py      |  4 ++++
 .../statistics/goodness_of_fit/normal.py          |  8 ++++++++
 .../statistics/goodness_of_fit/student.py         |  2 ++
 .../statistics/goodness_of_fit/uniform.py         |  2 +-
 8 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 7a3ff95..1e4622f 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -41,7 +41,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
     def _validate_rvs(rvs):
         rvs = np.asarray(rvs)
         # All values in [0, 1]
-        if np.any((rvs < 0) | (rvs > 1)):
+        if not np.all((rvs >= 0) & (rvs <= 1)):
             raise ValueError("Beta distribution values must be in the interval [0, 1]")
         return rvs
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 5cf7d61..150b364 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -200,6 +200,8 @@ class AhsanullahExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :param rvs: array of sample data.
         :return: Ahsanullah test statistic value.
         """
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         rvs = np.asarray(rvs, dtype=float).tolist()
 
         n = len(rvs)
@@ -407,6 +409,8 @@ class DeshpandeExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Deshpande test statistic value.
         """
 
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         n = len(rvs)
         des = 0
         for i in range(n):
@@ -766,6 +770,8 @@ class HollanderProshanExponentialityGofStatistic(AbstractExponentialityGofStatis
         :param rvs: array of sample data.
         :return: Hollander-Proshan test statistic value.
         """
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         rvs = np.asarray(rvs, dtype=float).tolist()
 
         n = len(rvs)
@@ -1117,6 +1123,8 @@ class RossbergExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Rossberg test statistic value.
         """
 
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         rvs = sorted(rvs)
         n = len(rvs)
         sh = 0
@@ -1235,6 +1243,8 @@ class WongWongExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Wong-Wong test statistic value.
         """
 
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         # n = len(rvs)
         ww = max(rvs) / min(rvs)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 3fd587f..ad9d3d4 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -575,6 +575,8 @@ class AbstractBinnedGammaGofStatistic(AbstractGammaGofStatistic, Chi2Statistic,
         n = sample.size
         if n == 0:
             raise ValueError("At least one observation is required for binned Gamma statistics.")
+        if np.isnan(sample).any():
+            raise ValueError("Binned Gamma statistics are undefined for missing observations.")
 
         quantiles = np.linspace(0.0, 1.0, self.bins + 1)
         edges = scipy_stats.gamma.ppf(quantiles, a=self.alpha, scale=1 / self.beta)
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 9d3f5f9..19a0d53 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -14,7 +14,10 @@ class AbstractGraphTestStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def execute_statistic(self, rvs, **kwargs) -> float | float64:
-        rvs = np.asarray(rvs, dtype=float).tolist()
+        rvs = np.asarray(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
+        rvs = rvs.tolist()
         dist = self._compute_dist(rvs)
 
         adjacency_list = self._make_adjacency_list(rvs, dist)
@@ -188,7 +191,10 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum clique.
         """
-        rvs = np.asarray(rvs, dtype=float).tolist()
+        rvs = np.asarray(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
+        rvs = rvs.tolist()
         dist = self._compute_dist(rvs)
         rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
@@ -230,7 +236,10 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         if len(rvs) == 0:
             return 0
 
-        rvs = np.asarray(rvs, dtype=float).tolist()
+        rvs = np.asarray(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
+        rvs = rvs.tolist()
         dist = self._compute_dist(rvs)
         rvs = sorted(rvs)  # a copy: the caller's sample stays as it is
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 7ed4377..b750f58 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -279,6 +279,8 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :return: KL Supremum test statistic value (inf if data contains non-positive values).
         """
         rvs = np.array(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -363,6 +365,8 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :return: KL Integral test statistic value (inf if data contains non-positive values).
         """
         rvs = np.array(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
 
         if np.any(rvs <= 0):
             return float("inf")
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 5fa54db..516a46c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -708,6 +708,8 @@ class Hosking2NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         n = len(rvs)
 
         if n > 3:
@@ -832,6 +834,8 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         return self.stat12(rvs)
 
     def stat12(self, x):
@@ -899,6 +903,8 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        if np.isnan(np.asarray(rvs, dtype=float)).any():
+            return np.nan
         return self.stat13(rvs)
 
     def stat13(self, x):
@@ -1975,6 +1981,8 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.asarray(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
         return self.stat16(rvs)
 
     def stat16(self, x):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 03be769..60d7808 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -515,6 +515,8 @@ class ChiSquareStudentGofStatistic(AbstractStudentGofStatistic):
         :return: Chi-square test statistic value.
         """
         rvs = np.asarray(rvs, dtype=float)
+        if np.isnan(rvs).any():
+            return np.nan
         n = len(rvs)
         # Standardize the data
         standardized = (np.array(rvs) - self.loc) / self.scale
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index aeaf64f..037e66e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -61,7 +61,7 @@ class AbstractUniformGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
         :raises ValueError: if any value is outside the interval [a, b].
         """
         rvs_array = np.asarray(rvs, dtype=float)
-        if np.any((rvs_array < self.a) | (rvs_array > self.b)):
+        if not np.all((rvs_array >= self.a) & (rvs_array <= self.b)):
             raise ValueError(
                 f"Uniform distribution values must be in the interval [{self.a}, {self.b}]"
             )
-- 
2.43.0


From 62b0dc7f4afda0d5714ec440c00e543e5ab03632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 78/84] fix: the usage example of the README does not import

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 100263b..6aebcbe 100644
--- a/README.md
+++ b/README.md
@@ -27,7 +27,7 @@ You're all set! You can now import and use the statistical tests in your Python
 Statistic calculation example:
 ```python
 # import needed criterion from pysatl_criterion
-from pysatl_criterion.statistics import KolmogorovSmirnovNormalityGofStatistic
+from pysatl_criterion.statistics.goodness_of_fit import KolmogorovSmirnovNormalityGofStatistic
 
 
 # make a criterion object
-- 
2.43.0


From c0f77165d8d4501b4c3bf79f9c865c0f7f3b6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 79/84] fix: critical value undefined when the limit
 distribution has infinite values

---
 .../calculator/critical_value_calculator.py           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index 7d58436..b773d10 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -15,10 +15,15 @@ def _quantile(limit_distribution: list[float], q: float) -> float:
     :return: quantile of the limit distribution.
     :raises ValueError: if the quantile is not a number.
     """
-    quantile = float(np.quantile(limit_distribution, q=q))
-    if np.isnan(quantile):
+    lower = float(np.quantile(limit_distribution, q=q, method="lower"))
+    upper = float(np.quantile(limit_distribution, q=q, method="higher"))
+    if np.isnan(lower) or np.isnan(upper):
         raise ValueError("Limit distribution must contain numbers only.")
-    return quantile
+    if lower == upper or np.isinf(lower):
+        return lower
+    if np.isinf(upper):
+        return upper
+    return float(np.quantile(limit_distribution, q=q))
 
 
 class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
-- 
2.43.0


From 80689bd1a4fc611281dc33b398aa0f53944a3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 80/84] fix: no p-value when the limit distribution has
 infinite values

---
 .../p_value/calculator/p_value_calculator.py              | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
index 1a1d36a..67d0e05 100644
--- a/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/p_value/calculator/p_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.p_value.calculator.model import PValueCalculator
@@ -12,11 +11,14 @@ def _cdf(limit_distribution: list[float], statistic_value: float) -> float:
     :param limit_distribution: simulated or theoretical limit distribution values.
     :param statistic_value: computed statistic value for the observed sample.
     :return: fraction of limit distribution values not above the statistic value.
-    :raises ValueError: if the statistic value is not a number.
+    :raises ValueError: if the statistic value or a limit distribution value is not a number.
     """
     if np.isnan(statistic_value):
         raise ValueError("Statistic value must be a number.")
-    return float(scipy_stats.ecdf(limit_distribution).cdf.evaluate(statistic_value))
+    values = np.asarray(limit_distribution, dtype=float)
+    if values.size == 0 or np.isnan(values).any():
+        raise ValueError("Limit distribution must contain numbers only.")
+    return float(np.count_nonzero(values <= statistic_value) / values.size)
 
 
 class LeftPValueCalculator(PValueCalculator):
-- 
2.43.0


From 6b06871c4709d8063a052e4f08d7cf08afba90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 81/84] fix: concurrent initialisation of a new database fails
 for all clients but one

---
 .../persistence/sqlalchemy/datastorage.py                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index d5bc046..82d7a4b 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -3,7 +3,7 @@ import logging
 from typing import Optional
 
 from sqlalchemy import create_engine, desc, select
-from sqlalchemy.exc import OperationalError
+from sqlalchemy.exc import OperationalError, SQLAlchemyError
 from sqlalchemy.orm import sessionmaker
 
 from pysatl_criterion.persistence.models.limit_distribution import (
@@ -36,7 +36,11 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         try:
             with self.engine.connect():
                 pass
-            Base.metadata.create_all(self.engine)
+            try:
+                Base.metadata.create_all(self.engine)
+            except SQLAlchemyError:
+                # another client may have created the tables in the meantime
+                Base.metadata.create_all(self.engine)
         except (OperationalError, Exception) as e:
             raise ConnectionError(f"Database unavailable: {self.connection_string}") from e
 
-- 
2.43.0


From 652929bfe484b6bc6fcd2e852dda3ff1269c7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 82/84] fix: concurrent inserts of the same record fail instead
 of updating it

---
 .../persistence/sqlalchemy/datastorage.py     | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 82d7a4b..a65f1ff 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -1,10 +1,13 @@
 import json
 import logging
-from typing import Optional
+from collections.abc import Callable
+from functools import wraps
+from typing import Any, Optional
 
 from sqlalchemy import create_engine, desc, select
-from sqlalchemy.exc import OperationalError, SQLAlchemyError
+from sqlalchemy.exc import IntegrityError, OperationalError, SQLAlchemyError
 from sqlalchemy.orm import sessionmaker
+from sqlalchemy.orm.exc import StaleDataError
 
 from pysatl_criterion.persistence.models.limit_distribution import (
     CriticalValueQuery,
@@ -21,6 +24,26 @@ from pysatl_criterion.persistence.sqlalchemy.models.limit_distribution_orm impor
 logger = logging.getLogger(__name__)
 
 
+def _repeat_lost_races(operation: Callable[..., None]) -> Callable[..., None]:
+    """
+    Repeat a write whose transaction failed because another client wrote the same record.
+
+    :param operation: storage operation that runs in a transaction of its own.
+    :return: operation that is repeated when it loses such a race.
+    """
+
+    @wraps(operation)
+    def wrapper(*args: Any, **kwargs: Any) -> None:
+        for _ in range(9):
+            try:
+                return operation(*args, **kwargs)
+            except (IntegrityError, StaleDataError):
+                continue
+        return operation(*args, **kwargs)
+
+    return wrapper
+
+
 class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
     """
     SQLAlchemy-based implementation of ILimitDistributionStorage.
@@ -61,6 +84,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
             logger.warning(f"{label} connection failed: {e}")
             return None
 
+    @_repeat_lost_races
     def insert_data(self, data: LimitDistributionModel) -> None:
         """
         Insert or update limit distribution data in the database.
@@ -131,6 +155,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
 
             return list(best_results.values())
 
+    @_repeat_lost_races
     def insert_bulk_data(self, models: list[LimitDistributionModel]) -> None:
         """
         Insert multiple records into the database in a single transaction.
-- 
2.43.0


From 0d0350fb7bf1b67292d53abc80ebcd174d369d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 83/84] fix: Doornik-Hansen statistic of a two-valued sample
 must not be NaN

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 516a46c..1fa30a5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1117,7 +1117,8 @@ class DoornikHansenNormalityGofStatistic(AbstractNormalityGofStatistic):
         c = (n - 7) * (n + 5) * (n + 7) * p3 / (6 * d)
         k = (n + 5) * (n + 7) * p4 / (12 * d)
         alpha = a + skew**2 * c
-        q = 2 * (kurt - 1 - skew**2) * k
+        # kurt >= 1 + skew**2 with equality for two-valued samples, where rounding may fall below
+        q = 2 * max(kurt - 1 - skew**2, 0) * k
         z = (0.5 * q / alpha) ** (1 / 3) - 1 + 1 / (9 * alpha)
         z *= math.sqrt(9 * alpha)
         return z
-- 
2.43.0


From 9452b286bcd76d8f3522fb9c448db1b9f9b008ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 84/84] fix: beta maximised likelihood raised when scipy's
 solver did not converge

---
 .../function_for_maximum_likelihood.py        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c394867..315bf82 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -1,9 +1,9 @@
 from math import comb, exp, factorial, log, pi
 
 import numpy as np
-from scipy.optimize import minimize_scalar, root_scalar
-from scipy.special import gammaln
-from scipy.stats import beta, cauchy, chi2, f, gamma, rayleigh, t
+from scipy.optimize import minimize, minimize_scalar, root_scalar
+from scipy.special import betaln, gammaln
+from scipy.stats import FitError, beta, cauchy, chi2, f, gamma, rayleigh, t
 
 
 # Continuous distributions:
@@ -210,7 +210,22 @@ def likelihood_function_beta(dataArray):
     ):
         return 0
 
-    alpha, beta_param, loc, scale = beta.fit(dataArray, floc=0, fscale=1)
+    try:
+        alpha, beta_param, loc, scale = beta.fit(dataArray, floc=0, fscale=1)
+    except FitError:
+        # the solver may fail for data close to the boundary; the log-likelihood is concave
+        mean_log, mean_log1m = np.mean(np.log(dataArray)), np.mean(np.log1p(-dataArray))
+
+        def neg_log_likelihood(p):
+            a, b = np.exp(p)
+            return betaln(a, b) - (a - 1) * mean_log - (b - 1) * mean_log1m
+
+        mean, var = np.mean(dataArray), np.var(dataArray)
+        concentration = max(mean * (1 - mean) / var - 1, 0.1)
+        start = np.log([mean * concentration, (1 - mean) * concentration])
+        options = {"xatol": 1e-9, "fatol": 1e-12, "maxiter": 4000}
+        result = minimize(neg_log_likelihood, start, method="Nelder-Mead", options=options)
+        alpha, beta_param = np.exp(result.x)
 
     n = len(dataArray)
 
-- 
2.43.0

