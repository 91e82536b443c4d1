From b7a65185570ca18794bc76211e9c9b69550360df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 01/16] fix: copy-constructed pole filters no longer share the
 storage of the original

---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  6 ++++++
 iir/Layout.h     | 11 +++++++++++
 iir/PoleFilter.h | 23 ++++++++++++++++++++++-
 4 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..15de951 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::rebindCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..648608f 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,12 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        /**
+         * Points to another storage of the same size without
+         * changing the number of stages. Needed after copying.
+         **/
+        void rebindCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..01285c4 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,17 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		/**
+		 * Points to another storage of the same size without touching
+		 * the number of poles which have already been added. Needed
+		 * after copying a layout.
+		 **/
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..ffd898e 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,13 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +134,15 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages <(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				// The base classes still point to the storage of the original.
+				rebindStorage();
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
@@ -137,6 +152,12 @@ namespace Iir {
 			}
 		
 	private:
+		void rebindStorage ()
+			{
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
+
 		Layout <MaxAnalogPoles> m_analogStorage = {};
 		Layout <MaxDigitalPoles> m_digitalStorage = {};
 	};
-- 
2.43.0


From ac6fb002a3bcb6619bd61365f000c30e10cb2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 02/16] fix: assigning a pole filter takes over its
 coefficients

---
 iir/PoleFilter.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index ffd898e..ed793a8 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -144,8 +144,14 @@ namespace Iir {
 				rebindStorage();
 			}
 		
-		PoleFilter& operator=(const PoleFilter&)
+		PoleFilter& operator=(const PoleFilter& other)
 			{
+				BaseClass::operator= (other);
+				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::operator= (other);
+				m_analogStorage = other.m_analogStorage;
+				m_digitalStorage = other.m_digitalStorage;
+				// The base classes now point to the storage of the other filter.
+				rebindStorage();
 				// Reset the filter state when copied for now
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 				return *this;
-- 
2.43.0


From ca6cfe8d0b4bd0669ef4b77152d8121edcb27cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/16] fix: a failed analog design is not kept as the current
 design

---
 iir/Butterworth.cpp | 10 ++++++++--
 iir/ChebyshevI.cpp  | 10 ++++++++--
 iir/ChebyshevII.cpp | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..a9db0ed 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -50,7 +50,8 @@ void AnalogLowPass::design (int numPoles)
 {
   if (m_numPoles != numPoles)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
 
     reset ();
 
@@ -64,6 +65,8 @@ void AnalogLowPass::design (int numPoles)
 
     if (numPoles & 1)
       add (-1, infinity());
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -80,7 +83,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +103,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..ebc13e9 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,8 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +82,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +109,8 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +155,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..a79ec22 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,8 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +82,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +110,8 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // invalid until the design has succeeded
+    m_numPoles = -1;
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +156,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 2520f4ec70986b9b3fdfcf9195315d6caed5e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 04/16] fix: reject coefficients which turn into NaN when
 normalised by a0

---
 iir/Biquad.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..d2076e0 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -129,13 +129,25 @@ namespace Iir {
 		if (Iir::is_nan (b0)) throw_invalid_argument("b0 is NaN");
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
+		if (a0 == 0) throw_invalid_argument("a0 is zero");
+
+		const double na1 = a1/a0;
+		const double na2 = a2/a0;
+		const double nb0 = b0/a0;
+		const double nb1 = b1/a0;
+		const double nb2 = b2/a0;
+
+		// infinity divided by infinity
+		if (Iir::is_nan (na1) || Iir::is_nan (na2) ||
+		    Iir::is_nan (nb0) || Iir::is_nan (nb1) || Iir::is_nan (nb2))
+			throw_invalid_argument("normalised coefficient is NaN");
 
 		m_a0 = a0;
-		m_a1 = a1/a0;
-		m_a2 = a2/a0;
-		m_b0 = b0/a0;
-		m_b1 = b1/a0;
-		m_b2 = b2/a0;
+		m_a1 = na1;
+		m_a2 = na2;
+		m_b0 = nb0;
+		m_b1 = nb1;
+		m_b2 = nb2;
 	}
 
 	void Biquad::setOnePole (complex_t pole, complex_t zero)
-- 
2.43.0


From 8cbd3b423b27e357ee7dc32a48234997bdfc0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 05/16] fix: reject scale factors which turn the coefficients
 into NaN

---
 iir/Biquad.cpp | 13 ++++++++++---
 iir/Custom.cpp | 14 ++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index d2076e0..f6d27b8 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -225,9 +225,16 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
-		m_b0 *= scale;
-		m_b1 *= scale;
-		m_b2 *= scale;
+		const double b0 = m_b0 * scale;
+		const double b1 = m_b1 * scale;
+		const double b2 = m_b2 * scale;
+
+		if (Iir::is_nan (b0) || Iir::is_nan (b1) || Iir::is_nan (b2))
+			throw_invalid_argument("scaled coefficient is NaN");
+
+		m_b0 = b0;
+		m_b1 = b1;
+		m_b2 = b2;
 	}
 
 }
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..7afc8b0 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -44,8 +44,11 @@ void OnePole::setup (double scale,
                      double pole,
                      double zero)
 {
-  setOnePole (pole, zero);
-  applyScale (scale);
+  // keeps the present coefficients if any of the parameters is invalid
+  Biquad b;
+  b.setOnePole (pole, zero);
+  b.applyScale (scale);
+  Biquad::operator= (b);
 }
 
 void TwoPole::setup (double scale,
@@ -57,8 +60,11 @@ void TwoPole::setup (double scale,
   complex_t pole = std::polar (poleRho, poleTheta);
   complex_t zero = std::polar (zeroRho, zeroTheta);
 
-  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
-  applyScale (scale);
+  // keeps the present coefficients if any of the parameters is invalid
+  Biquad b;
+  b.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
+  b.applyScale (scale);
+  Biquad::operator= (b);
 }
 
 }
-- 
2.43.0


From bd9b25d273946704449fc6a6c89b682af380e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 06/16] fix: reject negative filter orders

---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 1 +
 4 files changed, 13 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index a9db0ed..e270d86 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles)
   {
     // invalid until the design has succeeded
@@ -80,6 +82,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index ebc13e9..51195af 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -105,6 +107,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index a79ec22..1798001 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -106,6 +108,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..28380b5 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -67,6 +67,7 @@
 #include <stdexcept> // for invalid_argument
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
+static const char orderNegative[] = "Requested order is negative.";
 
 #define DEFAULT_FILTER_ORDER 4
 
-- 
2.43.0


From 6965ffae654f0c9facdf8ea984a4c2aa1df98dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 07/16] fix: reject band filters whose width is not positive

---
 iir/PoleFilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..f77161c 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,7 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthError[] = "The width of the frequency band needs to be positive.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -144,6 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
@@ -228,6 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
-- 
2.43.0


From 03e48ab1d6f6235d2a0b0756e86de25c8c92e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 08/16] fix: pole and zero of a first order biquad

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index f6d27b8..67ac37a 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 727c57b238e7c5c27caf0e38bf0ace36ec3c903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 09/16] fix: no std::polar with a negative magnitude in the
 Butterworth shelf

---
 iir/Butterworth.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index e270d86..6b4679f 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -102,7 +102,9 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      // not std::polar: its behaviour is undefined for a negative magnitude
+      addPoleZeroConjugatePairs (complex_t (gp * cos (theta), gp * sin (theta)),
+                                 complex_t (gz * cos (theta), gz * sin (theta)));
     }
     
     if (numPoles & 1)
-- 
2.43.0


From b2258feeb622b8d2b0451392f43d6a1176d695fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 10/16] fix: adding more poles than a layout can hold is
 rejected

---
 iir/Layout.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iir/Layout.h b/iir/Layout.h
index 01285c4..68ca157 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -51,6 +51,8 @@ namespace Iir {
 
 	static const char errCantAdd2ndOrder[] = "Can't add 2nd order after a 1st order filter.";
 
+	static const char errTooManyPoles[] = "More poles than the layout can hold.";
+
 	static const char errPolesNotComplexConj[] = "Poles not complex conjugate.";
 	static const char errZerosNotComplexConj[] = "Zeros not complex conjugate.";
 
@@ -113,6 +115,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 1 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
 			if (Iir::is_nan(zero))
@@ -126,6 +130,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 2 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
 			if (Iir::is_nan(zero))
@@ -139,6 +145,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 2 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (!poles.isMatchedPair ())
 				throw_invalid_argument(errPolesNotComplexConj);
 			if (!zeros.isMatchedPair ())
-- 
2.43.0


From dd3f293da83339d7feaaaeaa8cf80681502e88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 11/16] fix: a rejected layout keeps the number of stages

---
 iir/Cascade.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 15de951..cf08ac7 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -106,9 +106,10 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
+		m_numStages = numStages;
 
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
-- 
2.43.0


From 38691bdd68270067004b364538c0ac812f990a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 12/16] fix: a rejected set of SOS coefficients is not
 partially applied

---
 iir/Cascade.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.h b/iir/Cascade.h
index 648608f..afa345e 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -142,8 +142,10 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                // keeps the present coefficients if any of the new ones is invalid
+                Biquad stages[MaxStages];
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -151,6 +153,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
-- 
2.43.0


From 600f0d46e9f392486dd6c047cf92fe39fab21ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 13/16] fix: RBJ filters reject frequencies and Q factors which
 make them unstable

---
 iir/RBJ.cpp | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..72dbcbd 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -40,9 +40,29 @@ namespace Iir {
 
 namespace RBJ {
 
+	static const char cutoffError[] = "The frequency needs to be below the Nyquist frequency.";
+	static const char cutoffNeg[] = "The frequency is negative.";
+	static const char qError[] = "The Q factor needs to be positive.";
+	static const char widthError[] = "The bandwidth needs to be positive.";
+
+	// frequencies and Q factors outside of these ranges lead to unstable filters
+	static void checkFrequency (double f)
+	{
+		if (!(f < 0.5)) throw_invalid_argument(cutoffError);
+		if (f < 0.0) throw_invalid_argument(cutoffNeg);
+	}
+
+	static void checkPositive (double v, const char* msg)
+	{
+		if (!(v > 0.0)) throw_invalid_argument(msg);
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkFrequency (cutoffFrequency);
+		checkPositive (q, qError);
+
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +79,9 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkFrequency (cutoffFrequency);
+		checkPositive (q, qError);
+
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +98,9 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth, widthError);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +117,9 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth, widthError);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +136,9 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth, widthError);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +155,9 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (q_factor, qError);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +174,8 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +196,8 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +218,9 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
+		checkPositive (bandWidth, widthError);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +240,9 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkFrequency (phaseFrequency);
+	checkPositive (q, qError);
+
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From eaaa1ae00b74f78bacfb847c400dcfb7a4c03968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 14/16] fix: a setup rejected because of its normalisation
 keeps the present filter

---
 iir/Cascade.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index cf08ac7..a33985f 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -109,6 +109,24 @@ namespace Iir {
 		const int numStages = (numPoles + 1)/ 2;
 		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
+
+		// Everything which might throw is done on a temporary biquad
+		// so that the present filter is kept if the layout is invalid.
+		Biquad section;
+		const double f = proto.getNormalW() / (2 * doublePi);
+		complex_t h (1);
+		for (int i = 0; i < numStages; ++i)
+		{
+			section.setPoleZeroPair (proto[i]);
+			h *= section.response (f);
+		}
+		const double scale = proto.getNormalGain() / std::abs (h);
+		if (numStages > 0)
+		{
+			section.setPoleZeroPair (proto[0]);
+			section.applyScale (scale);
+		}
+
 		m_numStages = numStages;
 
 		Biquad* stage = m_stageArray;
@@ -119,8 +137,7 @@ namespace Iir {
 		for (int i = 0; i < m_numStages; ++i, ++stage)
 			stage->setPoleZeroPair (proto[i]);
   
-		applyScale (proto.getNormalGain() /
-			    std::abs (response (proto.getNormalW() / (2 * doublePi))));
+		applyScale (scale);
 	}
 
 
-- 
2.43.0


From 801ba92af01f2d367c8b2647fecb70ec7f53de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 15/16] fix: reject Chebyshev II filters without stopband
 attenuation

---
 iir/ChebyshevII.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 1798001..f57e2a7 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -53,6 +53,8 @@ void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
   if (numPoles < 0) throw_invalid_argument(orderNegative);
+  // no attenuation at all has its poles on the imaginary axis
+  if (!(stopBandDb > 0)) throw_invalid_argument("The stopband attenuation needs to be positive.");
 
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
-- 
2.43.0


From 7cb77df89f9a53cf763fabfdbd69c36b356f96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 16/16] fix: a layout rejects real pairs with NaN like all
 other NaN poles and zeros

---
 iir/Layout.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iir/Layout.h b/iir/Layout.h
index 68ca157..1671f51 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -147,6 +147,10 @@ namespace Iir {
 				throw_invalid_argument(errCantAdd2ndOrder);
 			if (m_numPoles + 2 > m_maxPoles)
 				throw_invalid_argument(errTooManyPoles);
+			if (poles.is_nan())
+				throw_invalid_argument(errPoleisNaN);
+			if (zeros.is_nan())
+				throw_invalid_argument(errZeroisNaN);
 			if (!poles.isMatchedPair ())
 				throw_invalid_argument(errPolesNotComplexConj);
 			if (!zeros.isMatchedPair ())
-- 
2.43.0

