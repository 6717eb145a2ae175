From 875e644ae1f087a41bd0e44f35922c2e2e1a3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 01/11] fix: copies of a filter own their coefficient and
 pole/zero storage

---
 iir/Cascade.h    | 11 +++++++++++
 iir/Layout.h     | 10 ++++++++++
 iir/PoleFilter.h | 19 ++++++++++++++++++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..bf93236 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -99,6 +99,17 @@ namespace Iir {
 
         void setLayout (const LayoutBase& proto);
 
+        protected:
+        /**
+         * Points to a storage which already holds the coefficients of
+         * the current stages, as it is the case when copying a filter.
+         **/
+        void rebindCascadeStorage (const Storage& storage)
+        {
+                m_maxStages = storage.maxStages;
+                m_stageArray = storage.stageArray;
+        }
+
         private:
         int m_numStages = 0;
         int m_maxStages = 0;
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..8d6f52e 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,16 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		/**
+		 * Points to a storage which already holds the poles and
+		 * zeros, as it is the case when copying a filter.
+		 **/
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..2b0f776 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,13 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +134,17 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages <(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				// The copied base classes still point to the
+				// storage of the other filter.
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
-- 
2.43.0


From 258fd57b909ceeee5b5989e087e06364159870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/11] fix: redo an analog design which was interrupted by an
 exception

---
 iir/Butterworth.cpp | 4 +++-
 iir/ChebyshevI.cpp  | 2 ++
 iir/ChebyshevII.cpp | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..d1d1e00 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,7 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
-  if (m_numPoles != numPoles)
+  if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles)
   {
     m_numPoles = numPoles;
 
@@ -78,6 +79,7 @@ AnalogLowShelf::AnalogLowShelf ()
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
   if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles ||
       m_gainDb != gainDb)
   {
     m_numPoles = numPoles;
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..0b9d526 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -49,6 +49,7 @@ void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
   if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles ||
       m_rippleDb != rippleDb)
   {
     m_numPoles = numPoles;
@@ -103,6 +104,7 @@ void AnalogLowShelf::design (int numPoles,
                              double rippleDb)
 {
   if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..659a4f7 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -53,6 +53,7 @@ void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
   if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles ||
       m_stopBandDb != stopBandDb)
   {
     m_numPoles = numPoles;
@@ -104,6 +105,7 @@ void AnalogLowShelf::design (int numPoles,
                              double stopBandDb)
 {
   if (m_numPoles != numPoles ||
+      getNumPoles () != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-- 
2.43.0


From 8e1f17a7082c63d3c21816cb91dd1cb26984b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 03/11] fix: pole and zero of a first order section recovered
 from its coefficients

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..eb62952 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 1cb34a899f2e95ab5bd8e118bf31a8992d213b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 04/11] fix: throw if the normalised or scaled coefficients are
 NaN

---
 iir/Biquad.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index eb62952..b9df8bf 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,12 +130,24 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		const double na1 = a1/a0;
+		const double na2 = a2/a0;
+		const double nb0 = b0/a0;
+		const double nb1 = b1/a0;
+		const double nb2 = b2/a0;
+
+		if (Iir::is_nan (na1)) throw_invalid_argument("a1/a0 is NaN");
+		if (Iir::is_nan (na2)) throw_invalid_argument("a2/a0 is NaN");
+		if (Iir::is_nan (nb0)) throw_invalid_argument("b0/a0 is NaN");
+		if (Iir::is_nan (nb1)) throw_invalid_argument("b1/a0 is NaN");
+		if (Iir::is_nan (nb2)) throw_invalid_argument("b2/a0 is NaN");
+
 		m_a0 = a0;
-		m_a1 = a1/a0;
-		m_a2 = a2/a0;
-		m_b0 = b0/a0;
-		m_b1 = b1/a0;
-		m_b2 = b2/a0;
+		m_a1 = na1;
+		m_a2 = na2;
+		m_b0 = nb0;
+		m_b1 = nb1;
+		m_b2 = nb2;
 	}
 
 	void Biquad::setOnePole (complex_t pole, complex_t zero)
@@ -213,9 +225,17 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
-		m_b0 *= scale;
-		m_b1 *= scale;
-		m_b2 *= scale;
+		const double sb0 = m_b0 * scale;
+		const double sb1 = m_b1 * scale;
+		const double sb2 = m_b2 * scale;
+
+		if (Iir::is_nan (sb0)) throw_invalid_argument("b0 is NaN");
+		if (Iir::is_nan (sb1)) throw_invalid_argument("b1 is NaN");
+		if (Iir::is_nan (sb2)) throw_invalid_argument("b2 is NaN");
+
+		m_b0 = sb0;
+		m_b1 = sb1;
+		m_b2 = sb2;
 	}
 
 }
-- 
2.43.0


From 659e4dbb856f91252e816275d2d24b9045e20d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 05/11] fix: no negative magnitude for std::polar in the
 Butterworth shelf prototype

---
 iir/Butterworth.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index d1d1e00..9b91128 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -89,18 +89,18 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
 
     const double n2 = numPoles * 2;
     const double g = pow (pow (10., gainDb/20), 1. / n2);
-    const double gp = -1. / g;
-    const double gz = -g;
+    const double gp = 1. / g;
+    const double gz = g;
 
     const int pairs = numPoles / 2;
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      addPoleZeroConjugatePairs (-std::polar (gp, theta), -std::polar (gz, theta));
     }
     
     if (numPoles & 1)
-      add (gp, gz);
+      add (-gp, -gz);
   }
 }
 
-- 
2.43.0


From d6dfc82a33a4b5b1c7048b6c6e7966ca17fbc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/11] fix: reject band filters whose band width is not
 positive

---
 iir/PoleFilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..f77161c 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,7 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthError[] = "The width of the frequency band needs to be positive.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -144,6 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
@@ -228,6 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
-- 
2.43.0


From 41ea5e5a006ffc39997899fa59c5166f7d69c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/11] fix: reject orders below one

---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 9b91128..fe0d5b3 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles)
   {
@@ -78,6 +80,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 0b9d526..67e20ec 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles ||
       m_rippleDb != rippleDb)
@@ -103,6 +105,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles ||
       m_rippleDb != rippleDb ||
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 659a4f7..c3d41e2 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles ||
       m_stopBandDb != stopBandDb)
@@ -104,6 +106,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       getNumPoles () != numPoles ||
       m_stopBandDb != stopBandDb ||
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..dd89d33 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -68,6 +68,8 @@
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
 
+static const char orderTooLow[] = "Requested order is too low. It needs to be at least one.";
+
 #define DEFAULT_FILTER_ORDER 4
 
 /**
-- 
2.43.0


From 9e0de1c86d1b6a41749a811f6fde95463b268522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 08/11] fix: RBJ filters reject invalid frequencies, Q factors
 and bandwidths

---
 iir/RBJ.cpp | 18 ++++++++++++++++++
 iir/RBJ.h   | 13 +++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..6c6ab81 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -43,6 +43,8 @@ namespace RBJ {
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkFrequency (cutoffFrequency);
+		checkPositive (q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +61,8 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkFrequency (cutoffFrequency);
+		checkPositive (q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +79,8 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +97,8 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +115,8 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +133,8 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (q_factor);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +151,7 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +172,7 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +193,8 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +214,8 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkFrequency (phaseFrequency);
+	checkPositive (q);
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
diff --git a/iir/RBJ.h b/iir/RBJ.h
index e3a0eb0..8f7fa27 100644
--- a/iir/RBJ.h
+++ b/iir/RBJ.h
@@ -79,6 +79,19 @@ namespace RBJ {
 		const DirectFormI& getState() {
 			return state;
 		}
+	protected:
+		/// throws if the normalised frequency is not within 0..1/2
+		static void checkFrequency(double normalizedFrequency) {
+			if (!(normalizedFrequency < 0.5))
+				throw_invalid_argument("The frequency needs to be below the Nyquist frequency.");
+			if (normalizedFrequency < 0.0)
+				throw_invalid_argument("The frequency is negative.");
+		}
+		/// throws if a Q factor or a bandwidth is not positive
+		static void checkPositive(double value) {
+			if (!(value > 0.0))
+				throw_invalid_argument("The Q factor / bandwidth needs to be positive.");
+		}
 	private:
 		DirectFormI state = {};
 	};
-- 
2.43.0


From 27ae7f1b669324154e5162d56911e626c0652784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/11] fix: keep the number of stages valid if a layout is too
 large

---
 iir/Cascade.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..370d3e8 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -100,9 +100,10 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
+		m_numStages = numStages;
 
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
-- 
2.43.0


From be02d56ba85b7b6365f5282ac5e4bab786540329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 10/11] fix: accept a pair of reals containing a pole or zero
 at the origin

A band stop filter of odd order whose width is a quarter of the sampling
rate can have a pole exactly at the origin and was rejected.
---
 iir/Types.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/iir/Types.h b/iir/Types.h
index 72c5516..687ad19 100644
--- a/iir/Types.h
+++ b/iir/Types.h
@@ -67,16 +67,14 @@ namespace Iir {
 
 		/**
 		 * Returns true if this is either a conjugate pair,
-		 * or a pair of reals where neither is zero.
+		 * or a pair of reals.
 		 */
 		bool isMatchedPair () const
 		{
 			if (first.imag() != 0)
 				return second == std::conj (first);
 			else
-				return second.imag () == 0 &&
-					second.real () != 0 &&
-					first.real () != 0;
+				return second.imag () == 0;
 		}
 
 		bool is_nan () const
-- 
2.43.0


From 833d5fbd973b4ce948af0f1147cb33612d11c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 11/11] fix: reject a leading coefficient which is zero or
 infinite

---
 iir/Biquad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index b9df8bf..83d76da 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,6 +130,9 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		if ((a0 == 0) || std::isinf (a0))
+			throw_invalid_argument("a0 is zero or infinite");
+
 		const double na1 = a1/a0;
 		const double na2 = a2/a0;
 		const double nb0 = b0/a0;
-- 
2.43.0

