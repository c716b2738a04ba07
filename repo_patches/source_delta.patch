From b6560ef8f4cc6784e6c1ee6a4db24e1789a44007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/13] fix: copies of a pole filter no longer share
 coefficient storage with the original

---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  5 +++++
 iir/Layout.h     |  7 +++++++
 iir/PoleFilter.h | 20 +++++++++++++++++++-
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..15de951 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::rebindCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..630146a 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,11 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        /**
+         * Points to another storage which already holds the same biquads
+         **/
+        void rebindCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..acc849b 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,13 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// Points to another storage which already holds the same pairs
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..8282047 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,14 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		// Changes where the prototypes are stored but keeps the prototypes
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +135,17 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				// The copied base classes still point to the storage
+				// of the other filter: point them to our own copy.
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
-- 
2.43.0


From f08efd9ec3f3ec257e559fb12db46db8046c3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/13] fix: repeating a rejected setup no longer succeeds with
 an incomplete design

The analogue prototypes remembered the parameters of a design before
it was complete. If it was then rejected the same setup call was
accepted the next time and resulted in a filter with missing poles.
---
 iir/Butterworth.cpp | 4 +++-
 iir/ChebyshevI.cpp  | 8 ++++++--
 iir/ChebyshevII.cpp | 8 ++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..f060ca6 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -80,7 +80,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +99,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..eee166d 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +108,7 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +153,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..f98effc 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +109,7 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +154,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 0988d8a7bcbad48b2afb66be479261ab2216d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/13] fix: reject filter orders below one

---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 1 +
 4 files changed, 13 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index f060ca6..f64b15a 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = numPoles;
@@ -77,6 +79,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index eee166d..fd2eb95 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -104,6 +106,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f98effc..50f86cf 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -105,6 +107,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..7c22c73 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -67,6 +67,7 @@
 #include <stdexcept> // for invalid_argument
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
+static const char orderTooLow[] = "Requested order is too low. The order needs to be at least one.";
 
 #define DEFAULT_FILTER_ORDER 4
 
-- 
2.43.0


From 1c51709a3e2841df15a5792b558b9d169f34389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 04/13] fix: throw when setup ends up with NaN or infinite
 coefficients

The coefficients were only tested before they were divided by a0 and
before they were scaled: for example Q = 0, a0 = 0 or a scale
factor of NaN silently resulted in a filter which outputs NaN.
---
 iir/Biquad.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..3e17dce 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,6 +130,12 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		// an a0 of zero or infinite coefficients turn into NaN
+		if (!std::isfinite (a0) ||
+		    !std::isfinite (a1/a0) || !std::isfinite (a2/a0) ||
+		    !std::isfinite (b0/a0) || !std::isfinite (b1/a0) || !std::isfinite (b2/a0))
+			throw_invalid_argument("Coefficients are not finite after normalising them to a0.");
+
 		m_a0 = a0;
 		m_a1 = a1/a0;
 		m_a2 = a2/a0;
@@ -213,6 +219,11 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
+		if (!std::isfinite (m_b0 * scale) ||
+		    !std::isfinite (m_b1 * scale) ||
+		    !std::isfinite (m_b2 * scale))
+			throw_invalid_argument("Scaled coefficients are not finite.");
+
 		m_b0 *= scale;
 		m_b1 *= scale;
 		m_b2 *= scale;
-- 
2.43.0


From 0b1121ebca3574421f6f989bca9089e127e5205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 05/13] fix: report the correct pole and zero of a single pole
 section

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 3e17dce..d3aece0 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 6cdf713d10dea1ca3b515cd827c6c004caff8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 06/13] fix: a rejected setup leaves the coefficients of a
 running filter untouched

---
 iir/Cascade.cpp | 21 +++++++++++++++++----
 iir/Cascade.h   |  6 +++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 15de951..f92d29f 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -106,10 +106,24 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
 
+		// Dry run: throws if the layout can't be turned into valid coefficients
+		// before anything is changed so that a running filter is not disturbed.
+		complex_t h (1);
+		for (int i = 0; i < numStages; ++i)
+		{
+			Biquad b;
+			b.setPoleZeroPair (proto[i]);
+			h *= b.response (proto.getNormalW() / (2 * doublePi));
+		}
+		const double scale = proto.getNormalGain() / std::abs (h);
+		if (!std::isfinite (scale))
+			throw_invalid_argument("The gain can't be normalised.");
+
+		m_numStages = numStages;
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
 			stage->setIdentity();
@@ -118,8 +132,7 @@ namespace Iir {
 		for (int i = 0; i < m_numStages; ++i, ++stage)
 			stage->setPoleZeroPair (proto[i]);
   
-		applyScale (proto.getNormalGain() /
-			    std::abs (response (proto.getNormalW() / (2 * doublePi))));
+		applyScale (scale);
 	}
 
 
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 630146a..b91655e 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -141,8 +141,10 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                // Only change the running filter once all coefficients are accepted
+                Biquad stages[MaxStages] = {};
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -150,6 +152,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
-- 
2.43.0


From 44b7c62b851de4467e544d774faca8ab0d2e01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/13] fix: reject band filters whose width is not positive

A negative width placed the poles outside of the unit circle and zero
width on it.
---
 iir/PoleFilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..c317b3c 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,7 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthNotPos[] = "The width of the frequency band needs to be positive.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -144,6 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthNotPos);
 
 	digital.reset ();
 	
@@ -228,6 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthNotPos);
 
 	digital.reset ();
 	
-- 
2.43.0


From 092ab9a150b2f57363ea3873c4ef128a1aee91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 08/13] fix: RBJ filters reject frequencies and Q factors which
 make them unstable

---
 iir/RBJ.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..77bc9d2 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -40,9 +40,20 @@ namespace Iir {
 
 namespace RBJ {
 
+	static const char frequencyError[] = "The frequency needs to be between zero and the Nyquist frequency.";
+	static const char notPositive[] = "Q factor, bandwidth and shelf slope need to be positive.";
+
+	// The poles are outside of the unit circle if these don't hold
+	static void checkParameters(double frequency, double q)
+	{
+		if (!((frequency >= 0) && (frequency < 0.5))) throw_invalid_argument(frequencyError);
+		if (!(q > 0)) throw_invalid_argument(notPositive);
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkParameters(cutoffFrequency, q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +70,7 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkParameters(cutoffFrequency, q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +87,7 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkParameters(centerFrequency, bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +104,7 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkParameters(centerFrequency, bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +121,7 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkParameters(centerFrequency, bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +138,7 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkParameters(centerFrequency, q_factor);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +155,7 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkParameters(cutoffFrequency, shelfSlope);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +176,7 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkParameters(cutoffFrequency, shelfSlope);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +197,7 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkParameters(centerFrequency, bandWidth);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +217,7 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkParameters(phaseFrequency, q);
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From 55111a55aec026d8bd59100289972b47a34da90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 09/13] fix: don't write past the end of the pole/zero storage

The setup methods of the base classes are accessible and don't know about
the order of the template so that a higher order has overwritten whatever
follows the storage.
---
 iir/Layout.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iir/Layout.h b/iir/Layout.h
index acc849b..e706fad 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -56,6 +56,8 @@ namespace Iir {
 
 	static const char pairIndexOutOfBounds[] = "Pair index out of bounds.";
 
+	static const char errTooManyPoles[] = "Too many poles for the storage of this layout.";
+
 /**
  * Base uses pointers to reduce template instantiations
  **/
@@ -109,6 +111,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 1 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
 			if (Iir::is_nan(zero))
@@ -122,6 +126,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 2 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
 			if (Iir::is_nan(zero))
@@ -135,6 +141,8 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
+			if (m_numPoles + 2 > m_maxPoles)
+				throw_invalid_argument(errTooManyPoles);
 			if (!poles.isMatchedPair ())
 				throw_invalid_argument(errPolesNotComplexConj);
 			if (!zeros.isMatchedPair ())
-- 
2.43.0


From ffc34f0e255cb65ac09e96d5cd94c0b29f62f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 10/13] fix: std::polar isn't called with a negative or NaN
 magnitude

---
 iir/Butterworth.cpp | 2 +-
 iir/Custom.cpp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index f64b15a..65b5a41 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -98,7 +98,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      addPoleZeroConjugatePairs (gp * std::polar (1., theta), gz * std::polar (1., theta));
     }
     
     if (numPoles & 1)
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..5dfefa6 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -54,8 +54,8 @@ void TwoPole::setup (double scale,
                      double zeroRho,
                      double zeroTheta)
 {
-  complex_t pole = std::polar (poleRho, poleTheta);
-  complex_t zero = std::polar (zeroRho, zeroTheta);
+  complex_t pole = poleRho * std::polar (1., poleTheta);
+  complex_t zero = zeroRho * std::polar (1., zeroTheta);
 
   setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
   applyScale (scale);
-- 
2.43.0


From e9f48349dd4df615e13a9c09f0a85b327424822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:56 +0000
Subject: [PATCH 11/13] fix: Chebyshev II rejects a stop band attenuation of
 zero (poles on the unit circle)

---
 iir/ChebyshevII.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 50f86cf..1ced698 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -40,6 +40,8 @@ namespace Iir {
 
 namespace ChebyshevII {
 
+static const char attenuationNotPos[] = "The attenuation of the stop band needs to be positive.";
+
 // "Chebyshev Filter Properties"
 // http://cnx.org/content/m16906/latest/
 
@@ -64,6 +66,8 @@ void AnalogLowPass::design (int numPoles,
 
     const double eps = std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1));
     const double v0 = asinh (1 / eps) / numPoles;
+    // without any attenuation the poles end up on the unit circle
+    if (!(v0 > 0)) throw_invalid_argument(attenuationNotPos);
     const double sinh_v0 = -sinh (v0);
     const double cosh_v0 = cosh (v0);
     const double fn = doublePi / (2 * numPoles);
-- 
2.43.0


From 23ab2e9779fd08dc450531759843a28e099555a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 12/13] fix: accept a pair of real poles or zeros of which one
 is zero

A band stop of odd order whose width is a quarter of the sampling rate has
a pole in the origin and was rejected as not being complex conjugate.
---
 iir/Layout.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iir/Layout.h b/iir/Layout.h
index e706fad..dfdd5d6 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -143,9 +143,10 @@ namespace Iir {
 				throw_invalid_argument(errCantAdd2ndOrder);
 			if (m_numPoles + 2 > m_maxPoles)
 				throw_invalid_argument(errTooManyPoles);
-			if (!poles.isMatchedPair ())
+			// two reals make a valid section even if one of them is zero
+			if (!poles.isMatchedPair () && !poles.isReal ())
 				throw_invalid_argument(errPolesNotComplexConj);
-			if (!zeros.isMatchedPair ())
+			if (!zeros.isMatchedPair () && !zeros.isReal ())
 				throw_invalid_argument(errZerosNotComplexConj);
 			m_pair[m_numPoles/2] = PoleZeroPair (poles.first, zeros.first,
 							     poles.second, zeros.second);
-- 
2.43.0


From 8f6bcafbf31106abc041b3771dca8b53562f6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 13/13] fix: response of long cascades no longer underflows

The product of the denominators of 40 and more sections of a narrow band
filter is below the smallest double so that response() returned NaN.
---
 iir/Cascade.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index f92d29f..1b8f83b 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -63,7 +63,6 @@ namespace Iir {
 		const complex_t czn1 = std::polar (1., -w);
 		const complex_t czn2 = std::polar (1., -2 * w);
 		complex_t ch (1);
-		complex_t cbot (1);
 
 		const Biquad* stage = m_stageArray;
 		for (int i = m_numStages; --i >=0; ++stage)
@@ -74,11 +73,11 @@ namespace Iir {
 			ct = addmul (ct, stage->getB2()/stage->getA0(), czn2);
 			cb = addmul (cb, stage->getA1()/stage->getA0(), czn1);
 			cb = addmul (cb, stage->getA2()/stage->getA0(), czn2);
-			ch   *= ct;
-			cbot *= cb;
+			// stage by stage: the product of the denominators underflows for long cascades
+			ch *= ct / cb;
 		}
 
-		return ch / cbot;
+		return ch;
 	}
 
 	std::vector<PoleZeroPair> Cascade::getPoleZeros () const
-- 
2.43.0

