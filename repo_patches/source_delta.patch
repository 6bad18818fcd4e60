From 5de0acc588692a455af3b51f601b95412efbf971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 01/21] fix: report zero instead of NaN/infinite returns,
 Sharpe and Sortino where they are undefined

---
 juno/src/statistics/extended.rs | 50 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..b2c3ed9 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,26 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// The mean return is undefined if there are no periods or if the portfolio value has not been
+// positive throughout. We consider the annualized return to be 0.0 in that case.
+fn annualized_return_or_zero(mean_g_return: f64) -> f64 {
+    let annualized_return = 365.0 * mean_g_return;
+    if annualized_return.is_finite() {
+        annualized_return
+    } else {
+        0.0
+    }
+}
+
+// A ratio to a risk that is zero, or undefined for the lack of returns, is considered to be 0.0.
+fn ratio_or_zero(annualized_return: f64, annualized_risk: f64) -> f64 {
+    if annualized_risk.is_nan() || annualized_risk == 0.0 {
+        0.0
+    } else {
+        annualized_return / annualized_risk
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -170,18 +190,18 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         .iter()
         .map(|v| (v + 1.0).ln())
         .collect::<Vec<f64>>();
-    let annualized_return = 365.0 * mean(&g_returns);
+    let annualized_return = annualized_return_or_zero(mean(&g_returns));
 
     // Sharpe ratio.
-    let sharpe_ratio = if annualized_return.is_nan() || annualized_return == 0.0 {
+    let sharpe_ratio = if annualized_return == 0.0 {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        ratio_or_zero(annualized_return, annualized_volatility)
     };
 
     // Sortino ratio.
-    let sortino_ratio = if annualized_return.is_nan() || annualized_return == 0.0 {
+    let sortino_ratio = if annualized_return == 0.0 {
         0.0
     } else {
         let neg_g_returns = g_returns
@@ -192,11 +212,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
         // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
         // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        ratio_or_zero(annualized_return, annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -280,9 +296,9 @@ pub fn get_sharpe_ratio(
     }
 
     let mean_g_returns = sum_g_returns / length as f64;
-    let annualized_return = 365.0 * mean_g_returns;
+    let annualized_return = annualized_return_or_zero(mean_g_returns);
 
-    let sharpe_ratio = if annualized_return.is_nan() || annualized_return == 0.0 {
+    let sharpe_ratio = if annualized_return == 0.0 {
         0.0
     } else {
         let variance = g_returns
@@ -295,7 +311,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        ratio_or_zero(annualized_return, annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -356,9 +372,9 @@ pub fn get_sortino_ratio(
 
     let mean_neg_g_returns = sum_neg_g_returns / len_neg_g_returns as f64;
     let mean_g_returns = sum_g_returns / length as f64;
-    let annualized_return = 365.0 * mean_g_returns;
+    let annualized_return = annualized_return_or_zero(mean_g_returns);
 
-    let sortino_ratio = if annualized_return.is_nan() || annualized_return == 0.0 {
+    let sortino_ratio = if annualized_return == 0.0 {
         0.0
     } else {
         let variance = g_returns
@@ -373,11 +389,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        ratio_or_zero(annualized_return, annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 298bd7456b100536950961446cbf7be58769f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 02/21] fix: keep DI, DX, ADX and stochastic finite and
 recovering in flat markets; ADX counts zero DX and announces its true
 maturity

---
 juno/src/indicators/adx.rs   |  9 +++------
 juno/src/indicators/di.rs    | 17 +++++++++++++----
 juno/src/indicators/dx.rs    |  8 +++++++-
 juno/src/indicators/stoch.rs |  8 +++++++-
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
@@ -30,11 +29,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..dd23e52 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -48,16 +48,25 @@ impl DI {
         }
 
         if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         } else if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         }
 
         self.prev_close = close;
     }
+
+    fn set_values(&mut self) {
+        if self.atr == 0.0 {
+            // No price movement at all (flat market).
+            self.plus_value = 0.0;
+            self.minus_value = 0.0;
+        } else {
+            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        }
+    }
 }
 
 fn calc_truerange(prev_close: f64, high: f64, low: f64) -> f64 {
diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..078dfd3 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,13 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            // No directional movement at all (flat market).
+            self.value = if sum == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / sum * 100.0
+            };
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..0289b11 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,13 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            // The range is zero in a flat market.
+            let fast_k = if range == 0.0 {
+                0.0
+            } else {
+                100.0 * (close - min_low) / range
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 5081cd33c05f5d3f87a63037a04977b6f71841cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 03/21] fix: seed Ema2 from the average of its first period
 prices so that it has a value when it reports mature

---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 641eb06576fcb55858d3ade385aed17db8f1a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 04/21] fix: smooth prices in Ema with period 1 and an explicit
 smoothing factor instead of returning the last price

---
 juno/src/indicators/ema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..a0a3715 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -45,11 +45,11 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
         self.value = match self.t {
-            1 => price,
+            0 => price,
             _ => (price - self.value) * self.a + self.value,
         };
+        self.t = min(self.t + 1, self.t1);
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From c4e7b90df1ae600009a0e39035185a9969651e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 05/21] fix: FourWeekRule waits for its moving average to
 mature before advising

---
 juno/src/strategies/four_week_rule.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..bae4a06 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,13 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1: max(params.period + 1, ma.maturity()),
+            ma,
         }
     }
 }
-- 
2.43.0


From c5385517fe67fe2bfbe5ec34b9f6ceaf978193f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 06/21] fix: BufferedCandle keeps calendar windows apart after
 missing candles and for weekly and monthly buffers

---
 juno/src/utils/buffered_candle.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..02e3804 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -38,35 +38,25 @@ impl BufferedCandle {
             return Some(Cow::Borrowed(candle));
         }
 
+        // Both weekly and monthly windows are not simply multiples of their interval.
+        let window = candle.time.floor(self.buffer_interval);
         let ret = match self.buffer_candle {
-            None => {
-                self.buffer_candle = Some(Candle {
-                    time: candle.time.floor(self.buffer_interval),
-                    open: candle.open,
-                    high: candle.high,
-                    low: candle.low,
-                    close: candle.close,
-                    volume: candle.volume,
-                });
+            Some(ref mut buffer_candle) if buffer_candle.time == window => {
+                *buffer_candle += candle;
                 None
             }
-            Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
-                    Some(*buffer_candle)
-                } else {
-                    *buffer_candle += candle;
-                    None
-                }
-            }
+            ref mut buffer_candle => buffer_candle.replace(Candle {
+                time: window,
+                ..*candle
+            }),
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let is_last = (candle.time + self.interval).floor(self.buffer_interval) != window;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 9402207152cbd2d8397d0835c2e8d20f74b10e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 07/21] fix: draw easings from a fixed order so a seed
 reproduces across processes

---
 juno/src/easing.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..ee61d87 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,40 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+// The order is fixed so that a given seed always yields the same easing.
+const EASING_CHOICES: [Easing; 31] = [
+    Easing::Linear,
+    Easing::QuadIn,
+    Easing::QuadOut,
+    Easing::QuadInout,
+    Easing::CubicIn,
+    Easing::CubicOut,
+    Easing::CubicInout,
+    Easing::QuartIn,
+    Easing::QuartOut,
+    Easing::QuartInout,
+    Easing::QuintIn,
+    Easing::QuintOut,
+    Easing::QuintInout,
+    Easing::SineIn,
+    Easing::SineOut,
+    Easing::SineInout,
+    Easing::CircIn,
+    Easing::CircOut,
+    Easing::CircInout,
+    Easing::ExpoIn,
+    Easing::ExpoOut,
+    Easing::ExpoInout,
+    Easing::ElasticIn,
+    Easing::ElasticOut,
+    Easing::ElasticInout,
+    Easing::BackIn,
+    Easing::BackOut,
+    Easing::BackInout,
+    Easing::BounceIn,
+    Easing::BounceOut,
+    Easing::BounceInout,
+];
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From 1f34ef1c72ceb93083336e67f857b80718287da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 08/21] fix: evolve exactly the requested number of generations

---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..be195cc 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From b3cfcd2ae6e29783257475295849d37afb225f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 09/21] fix: a single offspring has no partner to cross with,
 only mutate it

---
 juno/src/genetics/algorithm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index be195cc..753295b 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -135,6 +135,12 @@ where
         // crossover & mutation
         let start = time::Instant::now();
         for i in (0..offsprings.len()).step_by(2) {
+            if offsprings.len() == 1 {
+                // There is no other offspring to pair with.
+                self.mutation
+                    .mutate(rng, &mut offsprings[0].chromosome, ctx);
+                break;
+            }
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
-- 
2.43.0


From 7aa06ac599c42ee4a49696f93a5f5883c56da0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 10/21] fix: evaluate the fresh individuals added by elite
 reinsertion

---
 juno/src/genetics/algorithm.rs | 13 ++++++++++---
 juno/src/genetics/mod.rs       |  8 +++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 753295b..440452d 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -171,7 +171,14 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // Reinsertion can introduce new individuals which have not been evaluated yet.
+        offsprings.sort_by_key(|ind| !ind.is_evaluated());
+        let num_evaluated = offsprings.partition_point(Individual::is_evaluated);
+        if num_evaluated < offsprings.len() {
+            self.evaluate_and_sort_by_fitness_desc(&mut offsprings[num_evaluated..], timings);
+            offsprings.sort_by(Individual::fitness_desc);
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
@@ -181,10 +188,10 @@ where
     ) {
         let start = time::Instant::now();
         self.evaluation.evaluate(population);
-        timings.evaluation = start.elapsed();
+        timings.evaluation += start.elapsed();
 
         let start = time::Instant::now();
         population.sort_by(Individual::fitness_desc);
-        timings.sorting = start.elapsed();
+        timings.sorting += start.elapsed();
     }
 }
diff --git a/juno/src/genetics/mod.rs b/juno/src/genetics/mod.rs
index 3164829..7252dee 100644
--- a/juno/src/genetics/mod.rs
+++ b/juno/src/genetics/mod.rs
@@ -26,6 +26,8 @@ pub trait Evaluation {
     fn evaluate(&self, population: &mut [Individual<Self::Chromosome>]);
 }
 
+const UNEVALUATED_FITNESS: f64 = f64::MIN;
+
 #[derive(Clone, Debug, Serialize)]
 pub struct Individual<T: Chromosome> {
     pub chromosome: T,
@@ -36,10 +38,14 @@ impl<T: Chromosome> Individual<T> {
     fn generate(rng: &mut StdRng, ctx: &T::Context) -> Self {
         Self {
             chromosome: T::generate(rng, ctx),
-            fitness: f64::MIN,
+            fitness: UNEVALUATED_FITNESS,
         }
     }
 
+    fn is_evaluated(&self) -> bool {
+        self.fitness != UNEVALUATED_FITNESS
+    }
+
     fn fitness_desc(ind1: &Individual<T>, ind2: &Individual<T>) -> Ordering {
         ind2.fitness.partial_cmp(&ind1.fitness).unwrap()
     }
-- 
2.43.0


From c444c8f23e3f4f497bccfdf56924d94d41131b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 11/21] fix: tournament selection accepts valid rates and lets
 the fittest win

---
 juno/src/genetics/selection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..06c9207 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -1,5 +1,6 @@
 use super::{Chromosome, Individual};
 use rand::prelude::*;
+use std::cmp::max;
 
 pub trait Selection {
     fn select<T: Chromosome>(
@@ -51,7 +52,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
@@ -81,13 +82,16 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size = max(
+            (parents.len() as f32 * self.tournament_size_rate) as usize,
+            1,
+        );
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From 71cb1d738e0ca416b59585d3afac7706673e302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 12/21] fix: mark short positions to market as borrowed base in
 extended statistics

---
 juno/src/statistics/extended.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index b2c3ed9..9792b42 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -2,7 +2,7 @@ use super::SQRT_365;
 use crate::{
     math::{mean, std_deviation},
     trading::{Position, TradingSummary},
-    Interval, SymbolExt, Timestamp,
+    Fill, Interval, SymbolExt, Timestamp,
 };
 // use ndarray::prelude::*;
 // use ndarray_stats::CorrelationExt;
@@ -67,14 +67,19 @@ fn map_period_deltas_from_summary(
                 pos.base_cost(),
                 pos.gain(),
             ),
-            Position::Short(pos) => (
-                pos.open_time,
-                pos.cost(),
-                pos.base_gain(),
-                pos.close_time,
-                pos.base_cost(),
-                pos.gain(),
-            ),
+            // The borrowed base asset is sold on open and bought back on close. The collateral
+            // never leaves the portfolio, hence the negative cost and base gain.
+            Position::Short(pos) => {
+                let cost = Fill::total_fee(&pos.open_fills) - Fill::total_quote(&pos.open_fills);
+                (
+                    pos.open_time,
+                    cost,
+                    -pos.base_gain(),
+                    pos.close_time,
+                    -pos.base_cost(),
+                    pos.profit() + cost,
+                )
+            }
         };
         // Open.
         let time = time.floor(interval);
-- 
2.43.0


From e9a99f175e3edd64663fc9cb52de5b24473976a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 13/21] fix: reject malformed interval text instead of
 panicking or ignoring it

---
 juno/src/primitives/interval.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..6e6999d 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -33,15 +33,14 @@ const INTERVAL_FACTORS: [(&str, u64); 8] = [
 static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
     Lazy::new(|| INTERVAL_FACTORS.iter().cloned().collect());
 
-static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
+static INTERVAL_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^([0-9]+[a-zA-Z]+)+$").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+static INTERVAL_GROUP_RE: Lazy<Regex> =
+    Lazy::new(|| Regex::new(r"([0-9]+)([a-zA-Z]+)").unwrap());
+
+fn calc_interval_group(value: &str, unit: &str) -> Option<u64> {
+    let value = value.parse::<u64>().ok()?;
+    value.checked_mul(*INTERVAL_FACTOR_MAP.get(unit)?)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +86,16 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        if !INTERVAL_RE.is_match(s) {
+            return Err(super::ParseError);
+        }
+        INTERVAL_GROUP_RE
+            .captures_iter(s)
+            .try_fold(0_u64, |acc, group| {
+                acc.checked_add(calc_interval_group(&group[1], &group[2])?)
+            })
+            .map(Self)
+            .ok_or(super::ParseError)
     }
 }
 
-- 
2.43.0


From 128a99a59fc45ce74db90e537d3a7cd656476169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 14/21] fix: reject timestamp text before 1970 instead of
 wrapping around

---
 juno/src/primitives/timestamp.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..fbb1a1d 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -20,6 +20,10 @@ const WEEK_OFFSET_MS: u64 = 345_600_000;
 static DATE_FORMAT: Lazy<Vec<FormatItem<'_>>> =
     Lazy::new(|| format_description::parse("[year]-[month]-[day]").unwrap());
 
+fn checked_datetime_timestamp_ms(dt: OffsetDateTime) -> Option<u64> {
+    u64::try_from(dt.unix_timestamp_nanos().div_euclid(1_000_000)).ok()
+}
+
 fn datetime_timestamp_ms(dt: OffsetDateTime) -> u64 {
     (dt.unix_timestamp_nanos() / 1_000_000) as u64
 }
@@ -102,22 +106,15 @@ impl FromStr for Timestamp {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Err(())
-            .or_else(|_| {
-                OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
-            })
+        OffsetDateTime::parse(s, &Rfc3339)
             .or_else(|_| {
-                Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
-                        .unwrap()
-                        .assume_offset(UtcOffset::UTC)
-                        .unix_timestamp_nanos()
-                        / 1_000_000) as u64
-                })
+                Date::parse(s, &DATE_FORMAT)
+                    .map(|x| x.with_hms(0, 0, 0).unwrap().assume_offset(UtcOffset::UTC))
             })
+            .ok()
+            .and_then(checked_datetime_timestamp_ms)
             .map(Self)
-            .map_err(|_| Self::Err {})
+            .ok_or(Self::Err {})
     }
 }
 
-- 
2.43.0


From 72d50f789404c61386a9e5ca718dbf22193302c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 15/21] fix: keep the first of a month when ceiling a timestamp
 to a month

---
 juno/src/primitives/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index fbb1a1d..8b361a7 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -77,6 +77,10 @@ impl Timestamp {
         }
         if interval == Interval::MONTH_MS {
             let dt = datetime_utcfromtimestamp_ms(self.0);
+            let floor = self.floor(interval);
+            if floor == *self {
+                return floor;
+            }
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
                 year += 1;
-- 
2.43.0


From 3fe668d4a6e1f2ad7eb850c476c68176ceadb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 16/21] fix: compute multiples of large integers exactly

---
 juno/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..4450ebf 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -1,5 +1,5 @@
 pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
-    f64::ceil(value as f64 / multiple as f64) as u64 * multiple
+    value.div_ceil(multiple) * multiple
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-- 
2.43.0


From 412f7f149ac46a24c39f03006aeebe9e6f711cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 17/21] fix: support rounding to precisions of ten and more

---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 4450ebf..efab40f 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -45,12 +45,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From 98b8ca450f92975037bc4aac03c2002a176898a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 18/21] fix: respect disabled limits when rounding sizes up and
 validating them

---
 juno/src/filters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..5003539 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -57,12 +57,20 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        (self.min == 0.0 || size >= self.min)
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From 874f40098e0d3f56f53bc907b1db9f4f10bb963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 19/21] fix: keep missing spans within the requested range

---
 juno/src/utils/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..d295cd4 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,10 +60,11 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
+        let existing_start = u64::min(existing_start, missing_end);
         if existing_start > missing_start {
             result.push((missing_start, existing_start));
         }
-        missing_start = existing_end;
+        missing_start = u64::max(missing_start, existing_end);
     }
 
     if missing_start < missing_end {
-- 
2.43.0


From 11be2309018812d0c63f287c50f660651f92ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 20/21] fix: include the unaligned tail of a range when paging

---
 juno/src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index d295cd4..f68cdc0 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -75,7 +75,7 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
+    let total_size = (end - start).div_ceil(interval);
     let max_count = limit * interval;
     let page_size = (total_size as f64 / limit as f64).ceil() as u64;
     (0..page_size).map(move |i| {
-- 
2.43.0


From 89721156c530bf631e76a2c07ce2b6bdba26cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 21/21] fix: report true generation numbers from the optimize
 endpoint

---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0

