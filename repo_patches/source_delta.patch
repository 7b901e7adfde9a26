From 27e1a26a382ab8b707d8ddb3e7ce89a7c5797800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 01/31] fix: keep the avatar id when replacing perception
 metadata

---
 source/Types/src/Haptics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..bb79cdb 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,7 +75,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-- 
2.43.0


From 595718be78cd6a7bbb97bdc10fefed3e86206a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 02/31] fix: emit the last interpolated sample when the last
 two points are adjacent

---
 source/Tools/src/Tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..5ae5245 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -97,7 +97,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -117,7 +117,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -183,7 +183,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> output;
   double t = 0;
   int i = 0;
-  while (t < x.back()) {
+  while (i + 1 < static_cast<int>(x.size())) {
     double delta = t - x[i];
     while (t <= x[i + 1]) {
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
@@ -396,7 +396,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   int i = 0;
   double amp = 0;
 
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
-- 
2.43.0


From 7c2073009fbac31153acdad656d76258ca86538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 03/31] fix: evaluate the natural cubic spline at every sample

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 5ae5245..43b42d2 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -184,8 +184,8 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   double t = 0;
   int i = 0;
   while (i + 1 < static_cast<int>(x.size())) {
-    double delta = t - x[i];
     while (t <= x[i + 1]) {
+      double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
       output.push_back(amp);
       t += 1;
-- 
2.43.0


From 5a2cb4944ad7500b884aafd78552a9e76247322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 04/31] fix: write no more characters of a string than its
 declared length

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From 0838afccb4479944a4263da673514a9864f3c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 05/31] fix: quantise decimal fields to the nearest step so
 that re-encoding a decoded value is stable

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..822d2f0 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -114,7 +114,7 @@ public:
     auto normalizedValue = (value - minValue) / (maxValue - minValue);
     normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
-- 
2.43.0


From 1870334e03b27f51fe680596a659293eb9c094eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 06/31] fix: write the timeline effects of a composite effect,
 not the composite itself

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..f54181d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From 48af09b1c9edcc53bd31f4c8fbd848ddee0b782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 07/31] fix: place wavelet effects one block length apart when
 loading a binary file

---
 source/IOHaptics/src/IOBinaryBands.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..891aee3 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -108,8 +108,8 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
 }
 
 auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits, const unsigned int timescale)
-    -> bool {
+                                 std::vector<bool> &unusedBits,
+                                 [[maybe_unused]] const unsigned int timescale) -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
     auto effectType = static_cast<types::EffectType>(
@@ -118,8 +118,7 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      position = effectIndex * band.getBlockLengthOrDefault(); // block length is in ticks
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From db5db9f60bbb808b3a5e279be6b93fa5e37d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 08/31] fix: leave the reference device of a channel unset when
 the binary file holds none

---
 source/IOHaptics/src/IOBinary.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index f54181d..b01f442 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -596,8 +596,10 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (deviceId < REFDEV_MAX_ID) {
+      t.setReferenceDeviceId(deviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
-- 
2.43.0


From 88b50a580e5cc3cdb557bbfa745d4a29b6dbd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 09/31] fix: quantise decimal fields in double precision

A 32-bit field was normalised in float, whose 24-bit mantissa made values
come back hundreds of quantisation steps away (a channel gain of 0.5 was
read as 0.49902) and a loaded file was not always saved with the same bytes.
---
 source/IOHaptics/include/IOBinaryPrimitives.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 822d2f0..a70dcfc 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -93,9 +93,9 @@ public:
                              std::vector<bool> &unusedBits) -> float {
     auto intValue = readNBits<T, bitCount>(file, unusedBits);
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, bitCount) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(normalizedValue * (maxValue - minValue) + minValue);
     return value;
   }
 
@@ -111,10 +111,10 @@ public:
   template <class T, size_t bitCount>
   static auto writeFloatNBits(float value, std::vector<bool> &output, float minValue,
                               float maxValue) -> void {
-    auto normalizedValue = (value - minValue) / (maxValue - minValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
+    auto normalizedValue = (static_cast<double>(value) - minValue) / (maxValue - minValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
+    auto intValue = static_cast<T>(std::round(normalizedValue * maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
@@ -151,9 +151,9 @@ public:
     }
     auto intValue = std::bitset<length>(str).to_ulong();
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, length) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(normalizedValue * (maxValue - minValue) + minValue);
     startIdx += static_cast<int>(length);
     return value;
   }
-- 
2.43.0


From 2d0cd15da3b45fed7f71c9eb011df88b3fdfd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 10/31] fix: trimming trailing zero bits of an all-zero stream
 threw std::out_of_range

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 source/Spiht/src/ArithEnc.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..f0be1c1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From 693c1cdbd8fbadcc195c242221e8090df21286f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 11/31] fix: OHM body part masks with a byte of 0x80 or more
 were read back wrong

---
 source/Tools/src/OHMData.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..c08fccb 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -120,9 +120,12 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
 
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
+      const auto maskByte = [&bodyPartMaskBytes](size_t i) {
+        return static_cast<uint32_t>(static_cast<unsigned char>(bodyPartMaskBytes.at(i)));
+      };
       channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+          (maskByte(0) << threeBytesShift) | (maskByte(1) << twoBytesShift) |
+          (maskByte(2) << oneByteShift) | maskByte(3));
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From d10dc80352a09ca7402432f92776cefcdb76fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 12/31] fix: writeCRC read past the end of an empty packet list
 and refused a single packet

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..6f3220d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2273,7 +2273,7 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
 
   std::vector<bool> quotient = std::vector<bool>();
   int nbPackets = 0;
-  if (bitstream.empty()) {
+  if (bitstream.size() == 1) {
     quotient = bitstream[0];
     nbPackets++;
   } else if (bitstream.size() > 1) {
-- 
2.43.0


From d3a5ad9696bc6699452da79c0af222024ea559ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 13/31] fix: checkCRC joined the protected packets in reverse
 order and left 255 packets to check

---
 source/IOHaptics/src/IOStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6f3220d..b482ba8 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2332,10 +2332,11 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  while (crc.nbPackets > 0) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
     index++;
+    crc.nbPackets--;
   }
   bool res = false;
   if (crc.value16 > 0) {
-- 
2.43.0


From 4dc0e9360fee3e0cb39fad5b41f6f56ebc2e29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 14/31] fix: checkCRC rejected intact data whose checksum is
 zero

---
 source/IOHaptics/include/IOStream.h | 1 +
 source/IOHaptics/src/IOStream.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..2bb3aab 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -84,6 +84,7 @@ public:
     uint8_t nbPackets = 0;
     uint16_t value16 = 0;
     uint32_t value32 = 0;
+    bool is32Bits = false;
   };
 
   struct StreamWriter {
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b482ba8..446f9d2 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2303,24 +2303,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
     crc.nbPackets = 1;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.is32Bits = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.is32Bits = true;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.is32Bits = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.is32Bits = true;
     return true;
   }
   return false;
@@ -2339,7 +2343,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     crc.nbPackets--;
   }
   bool res = false;
-  if (crc.value16 > 0) {
+  if (!crc.is32Bits) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2354,7 +2358,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From 8cf9bf7bc8a4e246368ef63c5fa365450088e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 15/31] fix: references in timelines and in library effects
 were left dangling when inlining the library

---
 source/Types/include/Perception.h |  2 ++
 source/Types/src/Perception.cpp   | 38 +++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..ab98a42 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -163,6 +163,8 @@ private:
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
       "urn:mpeg:mpegi:haptics:effectsemantic:2023";
 
+  auto resolveReferences(Effect &effect, std::vector<int> &openReferences) -> void;
+
   int id = -1;
   int avatarId = -1;
   std::string description;
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..5938f61 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -302,6 +303,31 @@ auto Perception::getEffectById(int id) -> std::optional<Effect> {
   return {};
 }
 
+// Replaces the effect, if it is a reference, and every reference in its timeline by copies of the
+// library effects. The ids in openReferences are being resolved: a reference to one of them is kept.
+auto Perception::resolveReferences(Effect &effect, std::vector<int> &openReferences) -> void {
+  const bool isReference = effect.getEffectType() == EffectType::Reference;
+  if (isReference) {
+    const int id = effect.getId();
+    auto refEffect = getEffectById(id);
+    if (!refEffect.has_value() ||
+        std::find(openReferences.begin(), openReferences.end(), id) != openReferences.end()) {
+      return;
+    }
+    Effect basisEffect(refEffect.value());
+    basisEffect.setPosition(effect.getPosition());
+    basisEffect.setId(-1);
+    effect = basisEffect;
+    openReferences.push_back(id);
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    resolveReferences(effect.getTimelineEffectAt(i), openReferences);
+  }
+  if (isReference) {
+    openReferences.pop_back();
+  }
+}
+
 auto Perception::linearizeLibrary() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
     auto channel = getChannelAt(i);
@@ -310,16 +336,8 @@ auto Perception::linearizeLibrary() -> void {
       auto band = channel.getBandAt(j);
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
-        auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
-        }
+        std::vector<int> openReferences;
+        resolveReferences(getChannelAt(i).getBandAt(j).getEffectAt(k), openReferences);
       }
     }
   }
-- 
2.43.0


From ddfd5689e6cb484ec9bfeb08197f651412b57943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 16/31] fix: length of an effect none of whose keyframes has a
 position was read past its keyframes

---
 source/Types/src/Effect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..5dfe04c 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -408,6 +408,9 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From 981e6f76d4502fbf86cc1bbe510f078ff7ce89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 17/31] fix: evaluating a transient keyframe without amplitude
 never ended

---
 source/Types/src/Effect.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 5dfe04c..44077d1 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -322,13 +322,11 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
 
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
-    if (!it->getAmplitudeModulation().has_value()) {
-      continue;
+    if (it->getAmplitudeModulation().has_value()) {
+      res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
+                      transientDuration) *
+             it->getAmplitudeModulation().value();
     }
-
-    res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
-                    transientDuration) *
-           it->getAmplitudeModulation().value();
     it++;
   }
 
-- 
2.43.0


From dcbc66c83b1937c1b10d5d6f769d8cfe81bf6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 18/31] fix: transients were cut at 22 ticks instead of 22 ms
 when evaluating a band

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..c6eb5fe 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -127,7 +127,8 @@ auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLim
   if (effects.empty() ||
       ((this->bandType != types::BandType::WaveletWave) &&
        (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
+                       effects.back().getEffectTimeLength(
+                           bandType, Band::getTransientDuration(timescale)) ||
         position < 0))) {
     return 0;
   }
-- 
2.43.0


From 6aaf00822029e14c5d2fc549b0702e6048a35626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 19/31] fix: the length of a band did not cover an effect that
 ends after the last one starts

---
 source/Types/src/Band.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index c6eb5fe..3839746 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -258,12 +258,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 }
 
 auto Band::getBandTimeLength(unsigned int timescale) -> double {
-  if (this->effects.empty()) {
-    return 0;
+  double length = 0;
+  for (auto &effect : effects) {
+    length = std::max(length, effect.getPosition() +
+                                  effect.getEffectTimeLength(
+                                      this->getBandType(), Band::getTransientDuration(timescale)));
   }
-  return this->effects.back().getPosition() +
-         this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                  Band::getTransientDuration(timescale));
+  return length;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From 4111af741c0223abcc5a41d9ac3eb914684d2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 20/31] fix: evaluating a curve band read past an effect
 without keyframes

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 3839746..9262fc8 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -175,6 +175,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
+      if (e.getKeyframesSize() == 0) {
+        continue;
+      }
       std::vector<std::pair<int, double>> keyframes(
           e.getKeyframesSize()); // keyframes converted to position relative to fs
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-- 
2.43.0


From e918cb96d10c95398e0860c764e43b05b2d8b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 21/31] fix: a curve with exactly two keyframes was left out of
 the evaluated band

---
 source/Types/src/Band.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 9262fc8..a56dd52 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -215,20 +215,20 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
+      }
 
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      int count = 0;
+      int position =
+          static_cast<int>((e.getPosition() + pad) * fs *
+                           timescale); // position converted from ticks to samples rel. to fs
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int i = position;
+           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From 38d4abbf4fcec4906c2275382697b4987f6ac9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 22/31] fix: curve effects were placed at their position times
 the timescale instead of divided by it

---
 source/Types/src/Band.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a56dd52..3610016 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -218,9 +218,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       }
 
       int count = 0;
-      int position =
-          static_cast<int>((e.getPosition() + pad) * fs *
-                           timescale); // position converted from ticks to samples rel. to fs
+      int position = static_cast<int>(
+          (e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S) *
+          fs); // position converted from ticks to samples rel. to fs
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From 8899c99d9b58c4a1526bd6eaa19836bd8324bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 23/31] fix: a curve whose first keyframe is not at its start
 was sounded too early

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 3610016..13895e8 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -190,6 +190,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         }
         keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
       }
+      const int firstKeyframe = keyframes[0].first;
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
       if (keyframes.size() == 2) {
@@ -220,7 +221,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       int count = 0;
       int position = static_cast<int>(
           (e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S) *
-          fs); // position converted from ticks to samples rel. to fs
+          fs) + firstKeyframe; // position converted from ticks to samples rel. to fs
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From 4666abf39461c338bc88a12f1c16eac3945a380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 24/31] fix: the sampled channel was clipped after each band
 instead of after their sum

---
 source/Types/src/Channel.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..ba8f8cc 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -192,14 +192,11 @@ auto Channel::EvaluateChannel(uint32_t sampleCount, int fs, int pad, unsigned in
     std::vector<double> bandAmp = b.EvaluationBand(sampleCount, fs, pad, timescale);
     for (uint32_t i = 0; i < bandAmp.size(); i++) {
       channelAmp[i] += bandAmp[i];
-      if (channelAmp[i] < -1) {
-        channelAmp[i] = -1;
-      }
-      if (channelAmp[i] > 1) {
-        channelAmp[i] = 1;
-      }
     }
   }
+  for (auto &amplitude : channelAmp) {
+    amplitude = std::clamp(amplitude, -1.0, 1.0);
+  }
   return channelAmp;
 }
 
-- 
2.43.0


From ee3f084d6011c5ce6d1a7f94f96b97a3cd1b14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 25/31] fix: evaluating a band without effects read before the
 start of the effect list

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 13895e8..d986804 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -234,6 +234,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
     }
     break;
   default:
+    if (effects.empty()) {
+      break;
+    }
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
       double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
                                      (pad * MS_2_S)); // position in ticks needed
-- 
2.43.0


From 87abba165b430612d99445ee88292bb1708c50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 26/31] fix: the sample position of a late curve keyframe
 overflowed

---
 source/Types/src/Band.cpp    | 5 +++--
 source/Types/src/Channel.cpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index d986804..738b380 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -183,8 +183,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
+        keyframes[i].first = static_cast<int>(
+            static_cast<int64_t>(myKeyframe.getRelativePosition().value()) * fs /
+            timescale); // assuming position in ticks as input
         if (i > 0) {
           keyframes[i].first -= keyframes[0].first;
         }
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index ba8f8cc..667ed12 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Channel.h>
+#include <algorithm>
 
 namespace haptics::types {
 
-- 
2.43.0


From 8ba8335bd51fef9c51adca4dad0ced0bb86048b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 27/31] fix: evaluating a curve band read past the interpolated
 samples of a Bezier curve with an even number of keyframes and of a single
 keyframe

---
 source/Types/src/Band.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 738b380..53c948e 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -194,7 +194,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       const int firstKeyframe = keyframes[0].first;
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-      if (keyframes.size() == 2) {
+      if (keyframes.size() <= 2) {
         effectAmp = haptics::tools::linearInterpolation2(keyframes);
       } else {
         switch (getCurveTypeOrDefault()) {
@@ -227,8 +227,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         count = -position;
         position = 0;
       }
-      for (int i = position;
-           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+      for (int i = position; (i < static_cast<int>(sampleCount)) &&
+                             (count < static_cast<int>(effectAmp.size()));
+           i++) {
         bandAmp[i] += effectAmp[count];
         count++;
       }
-- 
2.43.0


From 5b5b4dbd363604a2351000b2be6e54498ccd116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 28/31] fix: the phase of a vectorial effect jumped at its
 frequency keyframes for a timescale other than 1000

---
 source/Types/src/Effect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 44077d1..4e110bb 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -249,11 +249,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / timescale *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / timescale *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
-- 
2.43.0


From 3b3b590b6d501ca96f47e91c1b038716327cb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 29/31] fix: the phase of a vectorial effect jumped after its
 last frequency keyframe

---
 source/Types/src/Effect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 4e110bb..9b9c5ea 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -291,6 +291,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // The phase already covers the time until this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().value_or(0);
     }
   }
 
-- 
2.43.0


From b11417a098cfcb652bfde1fc418cb6b8b550cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 30/31] fix: stream an avatar without mesh instead of throwing

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 446f9d2..3f018ed 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -958,7 +958,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    std::string mesh = avatar.getMesh().value();
+    std::string mesh = avatar.getMesh().value_or("");
     std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
     std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
     IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
-- 
2.43.0


From 14c2a2cf74f6a79f9ef0a1425451f88476af204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 31/31] fix: read the packet length from its own bits in a
 packet header

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 3f018ed..cf6ad8f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -776,7 +776,7 @@ auto IOStream::readMIHSPacketType(std::vector<bool> &packet) -> MIHSPacketType {
   return static_cast<MIHSPacketType>(typeInt);
 }
 auto IOStream::readPacketLength(std::vector<bool> &bitstream) -> int {
-  int beginIdx = haptics::io::H_NBITS - haptics::io::H_PAYLOAD_LENGTH;
+  int beginIdx = haptics::io::H_MIHS_PACKET_TYPE;
   std::vector<bool> packetLength = std::vector<bool>(
       bitstream.begin() + beginIdx, bitstream.begin() + beginIdx + haptics::io::H_PAYLOAD_LENGTH);
   std::string packetLengthStr;
-- 
2.43.0

