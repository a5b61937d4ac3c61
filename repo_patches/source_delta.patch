From 6571db8b317cb7f1c49646acaf9ee5db4d677288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 01/42] fix: check the bounds of received MIHS units and report
 unreadable units

Fields were read past the end of short units, packets in the last bytes of a
unit payload were skipped, and readMIHSUnit returned EXIT_FAILURE (true) when
a packet could not be read.
---
 source/IOHaptics/include/IOBinaryPrimitives.h | 36 ++++++++++++-------
 source/IOHaptics/include/IOStream.h           |  3 ++
 source/IOHaptics/src/IOStream.cpp             | 32 +++++++++++++----
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..4780663 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -138,9 +139,19 @@ public:
     }
   }
 
+  // Throws std::out_of_range when the bitstream ends before the requested field
+  static auto checkAvailable(const std::vector<bool> &bitstream, int startIdx, size_t length)
+      -> void {
+    const auto start = static_cast<size_t>(startIdx);
+    if (startIdx < 0 || start > bitstream.size() || length > bitstream.size() - start) {
+      throw std::out_of_range("bitstream too short");
+    }
+  }
+
   template <size_t length>
-  static auto readFloatNBits(std::vector<bool> &bitstream, int &startIdx, float minValue,
+  static auto readFloatNBits(const std::vector<bool> &bitstream, int &startIdx, float minValue,
                              float maxValue) -> float {
+    checkAvailable(bitstream, startIdx, length);
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
       if (bitstream[i]) {
@@ -164,7 +175,8 @@ public:
       bitstream.push_back(c == '1');
     }
   }
-  static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
+  static auto readUInt(const std::vector<bool> &bitstream, int &startIdx, int length) -> int {
+    checkAvailable(bitstream, startIdx, length);
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
       if ((bitstream[i])) {
@@ -178,19 +190,19 @@ public:
     return static_cast<int>(inv);
   }
 
-  static auto readInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
-
-    if (bitstream.empty()) {
-      return EXIT_FAILURE;
-    }
-    if (bitstream[startIdx]) {
-      bitstream.flip();
-      return -(readUInt(bitstream, startIdx, length) + 1);
+  static auto readInt(const std::vector<bool> &bitstream, int &startIdx, int length) -> int {
+    checkAvailable(bitstream, startIdx, length);
+    const bool negative = bitstream[startIdx];
+    auto value = static_cast<int64_t>(static_cast<uint32_t>(readUInt(bitstream, startIdx, length)));
+    if (negative) {
+      value -= int64_t{1} << length;
     }
-    return readUInt(bitstream, startIdx, length);
+    return static_cast<int>(value);
   }
 
-  static auto readString(std::vector<bool> bitstream, int &startIdx, int length) -> std::string {
+  static auto readString(const std::vector<bool> &bitstream, int &startIdx, int length)
+      -> std::string {
+    checkAvailable(bitstream, startIdx, static_cast<size_t>(length) * BYTE_SIZE);
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..e060003 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -145,6 +145,9 @@ public:
   static auto initializeStream() -> StreamReader;
 
 private:
+  static auto readMIHSUnitContent(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc)
+      -> bool;
+
   struct StartTimeIdx {
     int time = 0;
     int idx = 0;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..02b126d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -240,6 +240,16 @@ auto IOStream::silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) ->
 }
 
 auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc) -> bool {
+  try {
+    return readMIHSUnitContent(mihsunit, sreader, crc);
+  } catch (const std::out_of_range &) {
+    // truncated or malformed unit
+    return false;
+  }
+}
+
+auto IOStream::readMIHSUnitContent(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc)
+    -> bool {
   int index = 0;
   IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_TYPE);
   // MIHSUnitType unitType = static_cast<MIHSUnitType>(unitTypeInt);
@@ -251,16 +261,21 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   sreader.layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
 
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
-  int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
+  const auto unitLength =
+      static_cast<size_t>(
+          static_cast<uint32_t>(IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH))) *
+      BYTE_SIZE;
+  IOBinaryPrimitives::checkAvailable(mihsunit, index, UNIT_RESERVED);
   index += UNIT_RESERVED;
-
-  std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
+  IOBinaryPrimitives::checkAvailable(mihsunit, index, unitLength);
+  const auto unitEnd = static_cast<size_t>(index) + unitLength;
+  while (static_cast<size_t>(index) < unitEnd) {
+    std::vector<bool> packets =
+        std::vector<bool>(mihsunit.begin() + index, mihsunit.begin() + static_cast<long>(unitEnd));
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
-    packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   }
   sreader.time += sreader.packetDuration;
   return true;
@@ -675,7 +690,9 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   int index = H_MIHS_PACKET_TYPE;
   sreader.packetLength = IOBinaryPrimitives::readUInt(packet, index, H_PAYLOAD_LENGTH) * BYTE_SIZE;
   index += H_RESERVED;
-  std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
+  IOBinaryPrimitives::checkAvailable(packet, index, sreader.packetLength);
+  std::vector<bool> payload = std::vector<bool>(packet.begin() + index,
+                                                packet.begin() + index + sreader.packetLength);
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
     readTiming(sreader, payload);
@@ -1480,6 +1497,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
+  IOBinaryPrimitives::checkAvailable(bitstream, idx, REFDEV_OPT_FIELDS);
   std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
   idx += REFDEV_OPT_FIELDS;
   int maskIdx = 0;
-- 
2.43.0


From 4718431adffd069290fe06ad2c2f85471eadca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 02/42] fix: report stream files that cannot be read completely

readFile ignored the result of loadFile and returned EXIT_FAILURE (true) on a
bad unit; loadFile ignored short reads and trusted the unit length field.
---
 source/IOHaptics/include/IOBinaryPrimitives.h |  3 ++
 source/IOHaptics/src/IOStream.cpp             | 28 +++++++++++--------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 4780663..3d4c15d 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -223,6 +223,9 @@ public:
   static auto readNBytes(std::istream &file, int nbBytes, std::vector<bool> &bitstream) -> bool {
     std::vector<char> bytes(nbBytes);
     file.read(bytes.data(), nbBytes);
+    if (!file) {
+      return false;
+    }
     for (auto byte : bytes) {
       for (uint8_t i = 0; i < BYTE_SIZE; i++) {
         bitstream.push_back(((byte >> (BYTE_SIZE - i - 1)) & 1U) == 1);
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 02b126d..0a3fbec 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -62,20 +62,20 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
-  int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
         sreader.waitSync = true;
       }
     }
-    index++;
   }
   sreader.haptic.setTimescale(sreader.timescale); // TODO: earlier?
   haptic = sreader.haptic;
@@ -92,30 +92,36 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
   }
 
   file.seekg(0, std::ios::end);
-  unsigned int length = static_cast<unsigned int>(file.tellg());
+  const auto fileSize = static_cast<std::streamoff>(file.tellg());
   file.seekg(0, std::ios::beg);
 
-  if (length == 0) { // avoid undefined behavior
+  if (!file || fileSize <= 0) { // avoid undefined behavior
     file.close();
     return false;
   }
 
-  std::vector<std::vector<bool>> packetBits = std::vector<std::vector<bool>>();
-  unsigned int byteCount = 0;
+  const auto length = static_cast<uint64_t>(fileSize);
+  uint64_t byteCount = 0;
   while (byteCount < length) {
     std::vector<bool> bufPacket = std::vector<bool>();
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
-    IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
+    if (!IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket)) {
+      return false;
+    }
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
-    int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
+    const auto bytesToRead =
+        static_cast<uint32_t>(IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH));
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
-    IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
+    if (byteCount + bytesToRead > length ||
+        !IOBinaryPrimitives::readNBytes(file, static_cast<int>(bytesToRead), bufPacket)) {
+      return false;
+    }
     byteCount += bytesToRead;
     bitset.push_back(bufPacket);
   }
-- 
2.43.0


From f93498a34db1e77957a445550b7967557982f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 03/42] fix: checkCRC left its packet counter wrapped and took
 quadratic time

---
 source/IOHaptics/src/IOStream.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0a3fbec..ada3803 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2361,6 +2361,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
                             bitstream[index].end());
     index++;
   }
+  crc.nbPackets = 0;
   bool res = false;
   if (crc.value16 > 0) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
@@ -2400,15 +2401,17 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
   for (size_t i = 0; i < polynomial.size(); i++) {
     bitstream.push_back(false);
   }
-  while (bitstream.size() > polynomial.size()) {
-    bool msb = bitstream[0];
-    bitstream = std::vector<bool>(bitstream.begin() + 1, bitstream.end());
+  size_t start = 0;
+  while (bitstream.size() - start > polynomial.size()) {
+    bool msb = bitstream[start];
+    start++;
     if (msb) {
       for (size_t i = 0; i < polynomial.size(); i++) {
-        bitstream[i] = bitstream[i] != polynomial[i];
+        bitstream[start + i] = bitstream[start + i] != polynomial[i];
       }
     }
   }
+  bitstream.erase(bitstream.begin(), bitstream.begin() + static_cast<long>(start));
   return true;
 }
 
-- 
2.43.0


From c93385031bfee390a275a56a1b7fa653fa0fe77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 04/42] fix: checkHapticComponent skipped the component after
 each removed one

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index ada3803..69aca74 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -644,14 +644,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  // components are removed while iterating: go backwards to visit every one of them
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From b3c057595c16883ea086b23a8043f2dd22775b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 05/42] fix: packetise every effect of a band in every packet

Packets stopped at the first effect extending beyond them, which lost the
keyframes of the effects after it, a reference exactly at the end of a packet
was dropped, and the packet type was that of the last effect only.
---
 source/IOHaptics/src/IOStream.cpp | 36 +++++++++++--------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 69aca74..f4be720 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1997,9 +1997,10 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Collects the content of one packet; returns true when the band has nothing left to send
+  bool endBand = true;
+  bool isRAU = true;
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -2013,41 +2014,28 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     std::vector<bool> bufEffect = std::vector<bool>();
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
-      bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
+      bool isEffectRAU = true;
+      if (!writeEffectBasis(effect, swriter, bufKFCount, isEffectRAU, bufEffect)) {
+        endBand = false;
       }
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
-      }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
+        isRAU &= isEffectRAU;
       }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
-      if (effect.getPosition() >= swriter.time &&
-          effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
+      if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
+        endBand = false;
+      } else if (effect.getPosition() >= swriter.time) {
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
       }
     }
   }
-  return true;
+  swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
+  return endBand;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From 62d3396ead60a8cff49505d272a44ecc710c8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 06/42] fix: deliver every wavelet block of a stream at its own
 position

Blocks were dropped when a packet spans several of them (and none fitting a
packet never terminated), packets were stamped off the packet grid, all blocks
carried the semantic of the first one and the reader divided block positions
by the upper frequency limit although block lengths are ticks.
---
 source/IOHaptics/include/IOStream.h |  4 +--
 source/IOHaptics/src/IOStream.cpp   | 45 ++++++++++++++++-------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index e060003..05f9bd5 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -202,11 +202,11 @@ private:
   static auto writePayloadPacket(StreamWriter &swriter,
                                  std::vector<std::vector<bool>> bufPacketBitstream,
                                  std::vector<bool> &packetBits) -> std::vector<bool>;
-  static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
+  static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream, int block,
                                         std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+                                types::Effect &effect, int &length, unsigned int time) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index f4be720..22c8566 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1944,12 +1944,15 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
+    const int packetDuration = static_cast<int>(swriter.packetDuration);
+    for (int block = 0; block < static_cast<int>(bufPacketBitstream.size()); block++) {
+      // a block is sent in the packet in which it starts
+      const int blockStart = block * swriter.bandStream.band.getBlockLengthOrDefault();
+      swriter.time = blockStart - blockStart % packetDuration;
       swriter.auType = AUType::RAU;
       packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
+      packetBits = writeWaveletPayloadPacket(bufPacketBitstream[block], block, packetBits, swriter);
       bitstreams.push_back(packetBits);
-      swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
     }
   } else {
     while (!createPayloadPacket(swriter, bufPacketBitstream)) {
@@ -1980,18 +1983,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
@@ -2061,7 +2057,7 @@ auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
   return packetBits;
 }
 
-auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
+auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream, int block,
                                          std::vector<bool> &packetBits, StreamWriter &swriter)
     -> std::vector<bool> {
   std::bitset<DB_EFFECT_COUNT> fxCountBits(1);
@@ -2077,13 +2073,14 @@ auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
   std::string effectTypeStr = effectTypeBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  if (swriter.bandStream.band.getEffectAt(0).getSemantic().has_value()) {
+  types::Effect &effect = swriter.bandStream.band.getEffectAt(block);
+  if (effect.getSemantic().has_value()) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
 
-    types::EffectSemantic semantic = types::stringToEffectSemantic.at(
-        swriter.bandStream.band.getEffectAt(0).getSemantic().value());
+    types::EffectSemantic semantic =
+        types::stringToEffectSemantic.at(effect.getSemantic().value());
     std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
         static_cast<int>(semantic));
     std::string semanticStr = semanticBits.to_string();
@@ -2256,7 +2253,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
     } else {
       types::Effect effect;
       IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
+                                  sreader.time);
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2404,7 +2401,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
+                                 types::Effect &effect, int &length, const unsigned int time)
     -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
@@ -2423,9 +2420,17 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
-  effect.setPosition(effectPos);
+  // blocks are contiguous: the next block that starts in or after the current packet
+  const int64_t blockLength = band.getBlockLengthOrDefault();
+  int64_t effectPos = time;
+  if (blockLength > 0) {
+    effectPos = (effectPos + blockLength - 1) / blockLength * blockLength;
+    if (band.getEffectsSize() > 0) {
+      auto &last = band.getEffectAt(static_cast<int>(band.getEffectsSize()) - 1);
+      effectPos = std::max(effectPos, last.getPosition() + blockLength);
+    }
+  }
+  effect.setPosition(static_cast<int>(effectPos));
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
   length += idx;
-- 
2.43.0


From 1fc4a6309e2862e75e8253c65d8f63daa8590134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 07/42] fix: send spatial bands in the syntax the stream reader
 expects

Spatial bands were written with the file body syntax, which readData does not
parse, and every spatial band repeated the data of the ones before it.
---
 source/IOHaptics/include/IOStream.h |  1 +
 source/IOHaptics/src/IOStream.cpp   | 20 ++++++++------------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 05f9bd5..9292ba0 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -47,6 +47,7 @@ namespace haptics::io {
 static constexpr int TIME_TO_MS = 1000;
 static constexpr int DEFAULT_PACKET_DURATION = 128;
 static constexpr int DEFAULT_DURATION_DEVIATION = 0;
+static constexpr unsigned int SPATIAL_DURATION = INT32_MAX;
 
 static constexpr uint32_t CRC32_POLYNOMIAL = 2187366103;
 static constexpr uint16_t CRC16_POLYNOMIAL = 49185;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 22c8566..15f2b78 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2155,18 +2155,12 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
 
 auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  swriter.auType = AUType::RAU;
-  swriter.time = 0;
-
-  std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
-  bitstream.push_back(bandBitstream);
-
-  return true;
+  // the position of spatial effects is not a time: the whole band is sent at once
+  const auto packetDuration = swriter.packetDuration;
+  swriter.packetDuration = SPATIAL_DURATION;
+  const bool success = packetizeBand(swriter, bitstream);
+  swriter.packetDuration = packetDuration;
+  return success;
 }
 auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream) -> bool {
 
@@ -2192,8 +2186,10 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         bandStream.band = swriter.channel.getBandAt(k);
         swriter.bandStream = bandStream;
         if (spatial) {
+          linearizeTimeline(swriter.bandStream.band);
           writeSpatialData(swriter, bandBitstream);
           expBitstream.push_back(bandBitstream);
+          bandBitstream.clear();
         } else {
           linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-- 
2.43.0


From 5660a70b844b2da25a1b0a781659dafb350089e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 08/42] fix: look channels up inside their perception

Channel ids are only unique inside a perception; metadata and data of a
channel were attributed to a channel of another perception with the same id.
---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 9292ba0..7b348aa 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -264,7 +264,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 15f2b78..552ddd3 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -728,7 +728,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -742,7 +742,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1831,7 +1831,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2223,7 +2223,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInHaptic(sreader.haptic, perceptionIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2645,13 +2645,15 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int {
+  // channel ids are only unique inside a perception
+  if (perceptionIndex < 0 || perceptionIndex >= static_cast<int>(haptic.getPerceptionsSize())) {
+    return -1;
+  }
+  types::Perception &perception = haptic.getPerceptionAt(perceptionIndex);
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From afe98de7f47f0cbcb3043dfce0a963ac46861511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 09/42] fix: skip dependent packets while waiting for
 synchronisation

The whole unit was reported as unreadable and the clock of the reader stopped.
---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 552ddd3..0fcb8ef 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2208,7 +2208,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // not decodable before the next independent packet
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From 422117474625d34167572f73755d354ce8cc92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 10/42] fix: never merge keyframes into a reference with the
 same id

The id of a reference is the one of the library effect it refers to.
---
 source/IOHaptics/src/IOStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0fcb8ef..3da72e5 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2747,7 +2747,8 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
                                           .getBandAt(bandIndex)
                                           .getEffectAt(i);
 
-        if (effect.getId() == hapticEffect.getId()) {
+        if (effect.getId() == hapticEffect.getId() &&
+            hapticEffect.getEffectType() == types::EffectType::Basis) {
           for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
             hapticEffect.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
           }
-- 
2.43.0


From 5e9bff28e0734a8791cba4a59e343b585ddf8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 11/42] fix: repeat the initialization unit at every sync point
 on a unit boundary

A sync point off the unit grid blocked all later ones, a first sync point
after time 0 or a single one was ignored, and so was one at the end of the
leading silence.
---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 34 +++++++++++++----------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 7b348aa..542cc66 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -303,7 +303,7 @@ private:
   static auto addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool;
   static auto silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) -> void;
 
-  static auto getNextSync(types::Haptics &haptic, types::Sync &sync, int &idxs) -> bool;
+  static auto isSyncPoint(types::Haptics &haptic, int time) -> bool;
 };
 } // namespace haptics::io
 #endif // IOSTREAM_H
\ No newline at end of file
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 3da72e5..1abe437 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -144,9 +144,6 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   std::vector<bool> initUnit = std::vector<bool>();
   writeMIHSUnit(MIHSUnitType::Initialization, initPackets, initUnit, swriter);
   bitstream.push_back(initUnit);
-  types::Sync nextSync;
-  int syncIdx = 0;
-  getNextSync(haptic, nextSync, syncIdx);
 
   std::vector<std::vector<bool>> dataPackets = std::vector<std::vector<bool>>();
   writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets);
@@ -160,6 +157,11 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       if (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
+        if (isSyncPoint(haptic, swriter.time)) {
+          std::vector<bool> syncUnit = std::vector<bool>();
+          writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
+          bitstream.push_back(syncUnit);
+        }
       }
       first = false;
     }
@@ -177,10 +179,9 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         std::vector<bool> temporalUnit = std::vector<bool>();
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
         bitstream.push_back(temporalUnit);
-        if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
+        if (isSyncPoint(haptic, swriter.time)) {
           std::vector<bool> syncUnit = std::vector<bool>();
           writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-          getNextSync(haptic, nextSync, syncIdx);
           bitstream.push_back(syncUnit);
         }
         if (swriter.time != packetTS) {
@@ -188,10 +189,9 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
             bitstream.push_back(silentUnit);
-            if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
+            if (isSyncPoint(haptic, swriter.time)) {
               std::vector<bool> syncUnit = std::vector<bool>();
               writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-              getNextSync(haptic, nextSync, syncIdx);
               bitstream.push_back(syncUnit);
             }
           }
@@ -206,10 +206,9 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
     writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
     bitstream.push_back(temporalUnit);
     bufUnit.clear();
-    if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
+    if (isSyncPoint(haptic, swriter.time)) {
       std::vector<bool> syncUnit = std::vector<bool>();
       writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-      getNextSync(haptic, nextSync, syncIdx);
       bitstream.push_back(syncUnit);
     }
   }
@@ -2821,18 +2820,15 @@ auto IOStream::padToByteBoundary(std::vector<bool> &bitstream) -> void {
   }
 }
 
-auto IOStream::getNextSync(types::Haptics &haptic, types::Sync &sync, int &idx) -> bool {
-  if (idx >= static_cast<int>(haptic.getSyncsSize()) - 1) {
-    idx = -1;
-    return false;
+auto IOStream::isSyncPoint(types::Haptics &haptic, int time) -> bool {
+  if (time == 0) {
+    return false; // the stream starts with an initialization unit
   }
-  if (idx == 0 && haptic.getSyncsAt(0).getTimestamp() == 0) {
-    if (haptic.getSyncsSize() == 1) {
-      idx = -1;
-      return false;
+  for (int i = 0; i < static_cast<int>(haptic.getSyncsSize()); i++) {
+    if (haptic.getSyncsAt(i).getTimestamp() == time) {
+      return true;
     }
   }
-  sync = haptic.getSyncsAt(++idx);
-  return true;
+  return false;
 }
 } // namespace haptics::io
\ No newline at end of file
-- 
2.43.0


From 581f764d804570a782a95047bb110d4b00ddebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 12/42] fix: receiving the initialization unit again must not
 alter the experience

Avatars and syncs were duplicated, the avatar of a perception was replaced by
the perception id, a default semantic scheme was set and priorities were not
updated.
---
 source/IOHaptics/src/IOStream.cpp | 11 +++++++++--
 source/Types/include/Haptics.h    |  1 +
 source/Types/src/Channel.cpp      |  3 +++
 source/Types/src/Haptics.cpp      | 11 ++++++++---
 source/Types/src/Perception.cpp   |  3 +++
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1abe437..911597f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -865,8 +865,14 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
   int durationDeviation =
       IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_DURATIONDEVIATION);
   bool overlapping = IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_OVERLAPPING) == 1;
-  types::Sync sync = types::Sync(timestamp, timescale);
-  sreader.haptic.addSync(sync);
+  bool knownSync = false;
+  for (int i = 0; i < static_cast<int>(sreader.haptic.getSyncsSize()); i++) {
+    knownSync |= sreader.haptic.getSyncsAt(i).getTimestamp() == timestamp;
+  }
+  if (!knownSync) {
+    types::Sync sync = types::Sync(timestamp, timescale);
+    sreader.haptic.addSync(sync);
+  }
   sreader.nominalDuration = nominalDuration;
   sreader.durationDeviation = durationDeviation;
   sreader.overlapping = overlapping;
@@ -960,6 +966,7 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
   if (!readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
+  haptic.clearAvatars();
   for (auto avatar : avatarList) {
     haptic.addAvatar(avatar);
   }
diff --git a/source/Types/include/Haptics.h b/source/Types/include/Haptics.h
index 0b27d7c..d752ec4 100644
--- a/source/Types/include/Haptics.h
+++ b/source/Types/include/Haptics.h
@@ -78,6 +78,7 @@ public:
   [[nodiscard]] auto getAvatarsSize() -> size_t;
   [[nodiscard]] auto getAvatarAt(int index) -> Avatar &;
   auto addAvatar(Avatar &newAvatar) -> void;
+  auto clearAvatars() -> void { avatars.clear(); };
   [[nodiscard]] auto getTimescaleOrDefault() const -> unsigned int;
   [[nodiscard]] auto getTimescale() const -> std::optional<unsigned int>;
   auto setTimescale(std::optional<unsigned int> newTimescale) -> void;
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..db69f3e 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -96,6 +96,9 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
+  if (newBand.getPriority().has_value()) {
+    bands[index].setPriority(newBand.getPriority().value());
+  }
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..99d6293 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,14 +75,19 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
+  if (newPerception.getPriority().has_value()) {
+    perceptions[index].setPriority(newPerception.getPriority().value());
+  }
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  if (newPerception.getEffectSemanticScheme().has_value()) {
+    auto semantic = newPerception.getEffectSemanticScheme().value();
+    perceptions[index].setEffectSemanticScheme(semantic);
+  }
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..2d15768 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -123,6 +123,9 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
     return false;
   }
   channels[index].setId(newChannel.getId());
+  if (newChannel.getPriority().has_value()) {
+    channels[index].setPriority(newChannel.getPriority().value());
+  }
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
   channels[index].setGain(newChannel.getGain());
-- 
2.43.0


From 11d2be123e7094be2f36acc9b0345f16ec40a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 13/42] fix: reject band data whose band is not in the named
 channel

A band id declared again for another channel made the reader index the bands
of that channel out of range.
---
 source/IOHaptics/src/IOStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 911597f..827ab72 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -746,7 +746,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
-            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <
+            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <=
             bandIndex) {
       sreader.haptic.getPerceptionAt(perceIndex)
           .getChannelAt(channelIndex)
@@ -2238,7 +2238,8 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.bandStream.id = -1;
   sreader.bandStream.id = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_ID);
   sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream.id);
-  if (sreader.bandStream.index == -1) {
+  if (sreader.bandStream.index == -1 ||
+      sreader.bandStream.index >= static_cast<int>(sreader.channel.getBandsSize())) {
     return false;
   }
   sreader.bandStream.band = sreader.channel.getBandAt(sreader.bandStream.index);
-- 
2.43.0


From 2a125709662a5db19e78b72e6e55098362f0feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 14/42] fix: bound the nesting of library effects read from a
 stream

---
 source/IOHaptics/include/IOBinaryPrimitives.h |  2 ++
 source/IOHaptics/include/IOStream.h           |  2 +-
 source/IOHaptics/src/IOStream.cpp             | 20 +++++++++++--------
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 3d4c15d..86a5022 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -52,6 +52,8 @@ constexpr float MAX_AMPLITUDE = 1;
 constexpr float MAX_PHASE = 6.28318;
 constexpr int VECTOR_AXIS_SIZE = 8;
 constexpr int BYTE_SIZE = 8;
+// Deepest nesting of composite effects accepted from a file or a stream
+constexpr int MAX_TIMELINE_DEPTH = 64;
 class IOBinaryPrimitives {
 public:
   static auto readVector(std::istream &file, std::vector<bool> &unusedBits)
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 542cc66..7c52df3 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -243,7 +243,7 @@ private:
                                   int &length) -> bool;
   static auto readLibrary(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                std::vector<bool> &bitstream) -> bool;
+                                std::vector<bool> &bitstream, int depth) -> bool;
   static auto readMetadataChannel(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readSpatialData(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 827ab72..23cd9ed 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1174,18 +1174,22 @@ auto IOStream::readLibrary(StreamReader &sreader, std::vector<bool> &bitstream)
   }
   types::Perception perception = sreader.haptic.getPerceptionAt(perceIndex);
   auto effectCount = IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_LIBRARY_COUNT);
-  bool success = true;
 
   for (int i = 0; i < effectCount; i++) {
     types::Effect libraryEffect;
-    success &= readLibraryEffect(libraryEffect, idx, bitstream);
+    if (!readLibraryEffect(libraryEffect, idx, bitstream, 0)) {
+      return false;
+    }
     perception.addBasisEffect(libraryEffect);
   }
   sreader.haptic.replacePerceptionAt(perceIndex, perception);
-  return success;
+  return true;
 }
 auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                 std::vector<bool> &bitstream) -> bool {
+                                 std::vector<bool> &bitstream, int depth) -> bool {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    return false;
+  }
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   libraryEffect.setId(id);
 
@@ -1232,16 +1236,16 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
     types::Keyframe myKeyframe(position, amplitude, frequency);
     libraryEffect.addKeyframe(myKeyframe);
   }
-  bool success = true;
-
   auto timelineEffectCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TIMELINE_COUNT);
   for (int i = 0; i < timelineEffectCount; i++) {
     types::Effect timelineEffect;
-    success &= readLibraryEffect(timelineEffect, idx, bitstream);
+    if (!readLibraryEffect(timelineEffect, idx, bitstream, depth + 1)) {
+      return false;
+    }
     libraryEffect.addTimelineEffect(timelineEffect);
   }
 
-  return success;
+  return true;
 }
 
 auto IOStream::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool> &bitstream)
-- 
2.43.0


From 58ca03f57737f313ba9ce9af09e797580326f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 15/42] fix: write no more bytes of a long string than its
 length field tells

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From 2fa9bafcfeb88c577a8906ee5541ced6fe4f8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 16/42] fix: report binary data that ends early as a failed
 load

---
 source/IOHaptics/include/IOBinary.h           |  1 +
 source/IOHaptics/include/IOBinaryPrimitives.h |  3 +++
 source/IOHaptics/src/IOBinary.cpp             | 19 ++++++++++---------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinary.h b/source/IOHaptics/include/IOBinary.h
index 45c3693..3c1b8d9 100644
--- a/source/IOHaptics/include/IOBinary.h
+++ b/source/IOHaptics/include/IOBinary.h
@@ -81,6 +81,7 @@ public:
   static auto writeFileHeader(types::Haptics &haptic, std::vector<bool> &output) -> bool;
 
 private:
+  static auto readContent(types::Haptics &haptic, std::istream &file) -> bool;
   static auto readFileBody(types::Haptics &haptic, std::istream &file,
                            std::vector<bool> &unusedBits) -> bool;
   static auto readAvatars(types::Haptics &haptic, std::istream &file, std::vector<bool> &unusedBits)
diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 86a5022..9ac356b 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -71,6 +71,9 @@ public:
                                                                   : (nbBitsToRead / BYTE_SIZE) + 1);
       std::vector<char> bytes(nbBytesToRead);
       file.read(bytes.data(), nbBytesToRead);
+      if (!file) {
+        throw std::out_of_range("file too short");
+      }
       for (auto byte : bytes) {
         for (uint8_t i = 0; i < BYTE_SIZE; i++) {
           bitset.push_back(((byte >> (BYTE_SIZE - i - 1)) & 1U) == 1);
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..936b50e 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -43,12 +43,17 @@ namespace haptics::io {
 auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::istream istr(&in);
 
+  return readContent(out, istr);
+}
+
+auto IOBinary::readContent(types::Haptics &haptic, std::istream &file) -> bool {
   std::vector<bool> unusedBits;
-  bool res = readFileHeader(out, istr, unusedBits);
-  if (res) {
-    readFileBody(out, istr, unusedBits);
+  try {
+    return readFileHeader(haptic, file, unusedBits) && readFileBody(haptic, file, unusedBits);
+  } catch (const std::out_of_range &e) {
+    std::cerr << "Cannot read the binary data: " << e.what() << std::endl;
+    return false;
   }
-  return res;
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -67,11 +72,7 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
     file.close();
     return false;
   }
-  std::vector<bool> unusedBits;
-  bool res = IOBinary::readFileHeader(out, file, unusedBits);
-  if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
-  }
+  bool res = readContent(out, file);
 
   file.close();
   return res;
-- 
2.43.0


From 233ed4cbbe289aebaea4497f944662e7e0647b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 17/42] fix: report experiences that could not be stored
 completely

---
 source/IOHaptics/include/IOJson.h |  2 +-
 source/IOHaptics/src/IOBinary.cpp |  2 +-
 source/IOHaptics/src/IOJson.cpp   | 12 ++++++++++--
 source/IOHaptics/src/IOStream.cpp |  2 +-
 source/Tools/src/OHMData.cpp      |  2 +-
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 31eae46..e7cfcb1 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -161,7 +161,7 @@ public:
   static auto extractSyncs(types::Haptics &haptic, rapidjson::Value &jsonSyncs,
                            rapidjson::Document &jsonTree) -> void;
 
-  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> void;
+  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> bool;
 
   static auto bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
   static auto bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 936b50e..570f451 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -93,7 +93,7 @@ auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) ->
   IOBinaryPrimitives::writeBitset(output, file);
 
   file.close();
-  return res;
+  return res && file.good();
 }
 
 auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..8335de0 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1219,7 +1219,7 @@ auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vecto
   return true;
 }
 
-auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
+auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> bool {
   auto jsonTree = rapidjson::Document(rapidjson::kObjectType);
   if (versionCheck(haptic.getVersion(), false)) {
     jsonTree.AddMember("version",
@@ -1262,9 +1262,17 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   extractSyncs(haptic, jsonSyncs, jsonTree);
   jsonTree.AddMember("syncs", jsonSyncs, jsonTree.GetAllocator());
   std::ofstream file(filePath);
+  if (!file) {
+    std::cerr << filePath << ": Cannot open file!" << std::endl;
+    return false;
+  }
   rapidjson::OStreamWrapper osw(file);
   rapidjson::Writer<rapidjson::OStreamWrapper> writer(osw);
-  jsonTree.Accept(writer);
+  if (!jsonTree.Accept(writer)) {
+    return false;
+  }
+  file.close();
+  return file.good();
 }
 
 auto IOJson::extractPerceptions(types::Haptics &haptic, rapidjson::Value &jsonPerceptions,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 23cd9ed..d046c56 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -57,7 +57,7 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   file.close();
-  return success;
+  return success && file.good();
 }
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..62cfe11 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -197,7 +197,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     }
   }
   file.close();
-  return true;
+  return file.good();
 }
 
 [[nodiscard]] auto OHMData::getVersion() const -> short { return version; }
-- 
2.43.0


From ee868c7645aa7b76a0a40c90d8e220d5047f0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 18/42] fix: write the effects of a composite effect instead of
 the composite itself

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 570f451..8102f86 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -366,7 +366,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From 13cca32474b9795545324ac69bcda11e1a58163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 19/42] fix: bound the nesting of composite effects read from
 binary data

---
 source/IOHaptics/include/IOBinary.h      |  3 ++-
 source/IOHaptics/include/IOBinaryBands.h |  2 +-
 source/IOHaptics/src/IOBinary.cpp        |  7 +++++--
 source/IOHaptics/src/IOBinaryBands.cpp   | 14 +++++++++++---
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/include/IOBinary.h b/source/IOHaptics/include/IOBinary.h
index 3c1b8d9..6a51ea0 100644
--- a/source/IOHaptics/include/IOBinary.h
+++ b/source/IOHaptics/include/IOBinary.h
@@ -92,7 +92,8 @@ private:
                                    std::vector<bool> &unusedBits) -> bool;
   static auto readLibrary(types::Perception &perception, std::istream &file,
                           std::vector<bool> &unusedBits) -> bool;
-  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits) -> types::Effect;
+  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth = 0)
+      -> types::Effect;
   static auto readChannelsHeader(types::Perception &perception, std::istream &file,
                                  std::vector<bool> &unusedBits) -> bool;
 
diff --git a/source/IOHaptics/include/IOBinaryBands.h b/source/IOHaptics/include/IOBinaryBands.h
index 893a127..da5c0fd 100644
--- a/source/IOHaptics/include/IOBinaryBands.h
+++ b/source/IOHaptics/include/IOBinaryBands.h
@@ -85,7 +85,7 @@ private:
   static auto readReferenceEffect(types::Effect &effect, int &idx, std::vector<bool> &bitstream)
       -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits) -> bool;
+                                 std::vector<bool> &unusedBits, int depth = 0) -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, int &idx,
                                  std::vector<bool> &bitstream) -> bool;
 };
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 8102f86..3c5760d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -261,8 +261,11 @@ auto IOBinary::writePerceptionsHeader(types::Haptics &haptic, std::vector<bool>
   return true;
 }
 
-auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits)
+auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth)
     -> types::Effect {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    throw std::out_of_range("composite effects nested too deeply");
+  }
   types::Effect effect = types::Effect();
   auto id = IOBinaryPrimitives::readNBits<int, EFFECT_ID>(file, unusedBits);
   auto position = IOBinaryPrimitives::readNBits<int, EFFECT_POSITION>(file, unusedBits);
@@ -307,7 +310,7 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<unsigned short, EFFECT_TIMELINE_COUNT>(file, unusedBits);
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
-    auto timelineEffect = readLibraryEffect(file, unusedBits);
+    auto timelineEffect = readLibraryEffect(file, unusedBits, depth + 1);
     effect.addTimelineEffect(timelineEffect);
   }
   return effect;
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..a995249 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -127,7 +127,9 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
@@ -412,7 +414,11 @@ auto IOBinaryBands::writeReferenceEffect(types::Effect &effect, std::vector<bool
 }
 
 auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                       std::vector<bool> &unusedBits) -> bool {
+                                       std::vector<bool> &unusedBits, int depth) -> bool {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    std::cerr << "Composite effects nested too deeply" << std::endl;
+    return false;
+  }
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_TIMELINE_COUNT>(file, unusedBits);
 
@@ -427,7 +433,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits, depth + 1)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-- 
2.43.0


From ac190a328c482c38b4bae111e1b96f213ec7eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 20/42] fix: place wavelet blocks read from binary data at
 their own position

---
 source/IOHaptics/src/IOBinaryBands.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index a995249..449c553 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -108,8 +108,8 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
 }
 
 auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits, const unsigned int timescale)
-    -> bool {
+                                 std::vector<bool> &unusedBits,
+                                 const unsigned int /*timescale*/) -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
     auto effectType = static_cast<types::EffectType>(
@@ -118,8 +118,13 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      // the block length is already expressed in ticks
+      auto blockPosition = static_cast<int64_t>(effectIndex) * band.getBlockLengthOrDefault();
+      if (blockPosition > std::numeric_limits<int>::max()) {
+        std::cerr << "Wavelet block out of range" << std::endl;
+        return false;
+      }
+      position = static_cast<int>(blockPosition);
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From 9946055116a62e3a26e48b3e1354e406018178ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 21/42] fix: reject wavelet bands whose block length cannot be
 represented

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 3c5760d..d9b5be5 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -776,7 +776,7 @@ auto IOBinary::readFileBody(types::Haptics &haptic, std::istream &file,
         myBand = myChannel.getBandAt(bandIndex);
         if (!IOBinaryBands::readBandHeader(myBand, file, unusedBits,
                                            haptic.getTimescaleOrDefault())) {
-          continue;
+          return false;
         }
 
         if (!IOBinaryBands::readBandBody(myBand, file, unusedBits,
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 449c553..a675262 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -44,14 +44,14 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
   band.setBandType(static_cast<types::BandType>(bandType));
-  int blockLength_samp = 0;
+  double blockLength_samp = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
     band.setCurveType(static_cast<types::CurveType>(curveType));
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
-    blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
+    blockLength_samp = pow(2, blockLength_code + 4);
   }
 
   auto lowerFrequencyLimit =
@@ -63,8 +63,12 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
-    auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
-    band.setBlockLength(blockLength_ticks);
+    auto blockLength_ticks = blockLength_samp * timescale / upperFrequencyLimit;
+    if (!(blockLength_ticks <= std::numeric_limits<int>::max())) {
+      std::cerr << "Invalid wavelet block length" << std::endl;
+      return false;
+    }
+    band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
   for (unsigned int i = 0; i < effectCount; i++) {
-- 
2.43.0


From 536cdb287e2ea0debf7290d895112069ec1db619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 22/42] fix: report a decoder output that could not be stored

---
 source/Decoder/src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index f0c41d3..53ab0df 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -100,6 +100,8 @@ auto main(int argc, char *argv[]) -> int {
   //  }
   //}
 
-  IOJson::writeFile(hapticFile, output);
+  if (!IOJson::writeFile(hapticFile, output)) {
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From d3a3a2828dcf25a46eb8de3807f45593e0e3d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 23/42] fix: read body part masks of OHM files without sign
 extension

---
 source/Tools/src/OHMData.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 62cfe11..7de2532 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -120,9 +120,11 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
 
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
-      channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+      uint32_t bodyPartMask = 0;
+      for (auto byte : bodyPartMaskBytes) {
+        bodyPartMask = (bodyPartMask << oneByteShift) | static_cast<uint8_t>(byte);
+      }
+      channel.bodyPartMask = static_cast<Body>(bodyPartMask);
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From 51da9a316152080fcd8576ebd22a88f83809b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 24/42] fix: report OHM files that end early as a failed load

---
 source/Tools/src/OHMData.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 7de2532..6efc2a7 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -88,6 +88,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   file.read(descriptionBytes.data(), descriptionByteSize);
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
+  if (!file) {
+    std::cerr << filePath << ": unexpected end of file" << std::endl;
+    return false;
+  }
 
   for (int i = 0; i < numElements; i++) {
     HapticElementMetadata element;
@@ -126,8 +130,15 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
       }
       channel.bodyPartMask = static_cast<Body>(bodyPartMask);
 
+      if (!file) {
+        break;
+      }
       element.channelsMetadata.push_back(channel);
     }
+    if (!file) {
+      std::cerr << filePath << ": unexpected end of file" << std::endl;
+      return false;
+    }
     elementsMetadata.push_back(element);
   }
   file.close();
-- 
2.43.0


From 4c6288f1730e174707395dd94a14b276d293fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 25/42] fix: store wavelet blocks without any set bit as JSON

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 8335de0..dd2dd7c 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1701,7 +1701,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1757,7 +1757,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
-- 
2.43.0


From f6eb76d74dab34421e27eb6e246e6a6433b975ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 26/42] fix: always store the timescale that loading a JSON
 experience requires

---
 source/IOHaptics/src/IOJson.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index dd2dd7c..4cac551 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1248,9 +1248,7 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   jsonTree.AddMember("description",
                      rapidjson::Value(haptic.getDescription().c_str(), jsonTree.GetAllocator()),
                      jsonTree.GetAllocator());
-  if (haptic.getTimescale().has_value()) {
-    jsonTree.AddMember("timescale", haptic.getTimescale().value(), jsonTree.GetAllocator());
-  }
+  jsonTree.AddMember("timescale", haptic.getTimescaleOrDefault(), jsonTree.GetAllocator());
 
   auto jsonAvatars = rapidjson::Value(rapidjson::kArrayType);
   extractAvatars(haptic, jsonAvatars, jsonTree);
-- 
2.43.0


From cf0557b6cd8a5cfba6bd10927b566a650a032f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 27/42] fix: report unusable inputs and unsaved outputs of the
 encoder and synthesizer tools

---
 source/Encoder/src/main.cpp     | 10 ++++++----
 source/Synthesizer/src/main.cpp |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 2ce826e..34fc703 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -272,7 +272,7 @@ auto main(int argc, char *argv[]) -> int {
     hapticFile.addPerception(myPerception);
   } else if (ext == "hjif") {
     std::cout << "The HJIF file to encode : " << filename << std::endl;
-    IOJson::loadFile(filename, hapticFile);
+    codeExit = IOJson::loadFile(filename, hapticFile) ? EXIT_SUCCESS : EXIT_FAILURE;
   } else {
     codeExit = EXIT_FAILURE;
   }
@@ -295,9 +295,11 @@ auto main(int argc, char *argv[]) -> int {
     if (inputParser.cmdOptionExists("--packet_duration")) {
       packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
     }
-    IOStream::writeFile(hapticFile, output, packetDuration);
-  } else {
-    IOJson::writeFile(hapticFile, output);
+    if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
+      return EXIT_FAILURE;
+    }
+  } else if (!IOJson::writeFile(hapticFile, output)) {
+    return EXIT_FAILURE;
   }
 
   return codeExit;
diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index 477b6c3..aa62a5e 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -132,8 +132,8 @@ auto main(int argc, char *argv[]) -> int {
     if (!IOStream::readFile(filename, hapticFile)) {
       return EXIT_FAILURE;
     }
-  } else {
-    IOJson::loadFile(filename, hapticFile);
+  } else if (!IOJson::loadFile(filename, hapticFile)) {
+    return EXIT_FAILURE;
   }
 
   hapticFile.linearize();
@@ -149,7 +149,9 @@ auto main(int argc, char *argv[]) -> int {
     haptics::tools::OHMData ohm = hapticFile.extractMetadataToOHM(relativeFilename);
     auto ohmPath = outputPath;
     ohmPath.replace_extension(".ohm");
-    ohm.writeFile(ohmPath.string());
+    if (!ohm.writeFile(ohmPath.string())) {
+      return EXIT_FAILURE;
+    }
   }
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 52bdfda6e32b93a651192d918c7c639680985b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 28/42] fix: AHAP modulation of continuous events read control
 points outside the curve

A continuous event lying wholly after or wholly before all control points of a
parameter curve dereferenced the end iterator or the element before the first.
---
 source/Encoder/src/AhapEncoder.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..767d5e6 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -360,6 +360,11 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
         return a.first >= continuous.getPosition();
       });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EFFECT, THERE IS NO MODULATION
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
     continuous.getKeyframeAt(0).setAmplitudeModulation(
@@ -376,6 +381,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF ALL KEYFRAMES ARE AFTER THE EFFECT, THERE IS NO MODULATION
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -410,6 +419,11 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EFFECT, THERE IS NO MODULATION
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
     double freq_d = first_kf_f->second + base_freq;
@@ -432,6 +446,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF ALL KEYFRAMES ARE AFTER THE EFFECT, THERE IS NO MODULATION
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From 6b6d196bce6091177cfb0385f01983e53ad540e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 29/42] fix: reading a binary band header took time quadratic
 in its effect count

---
 source/IOHaptics/src/IOBinaryBands.cpp | 5 +----
 source/Types/include/Band.h            | 1 +
 source/Types/src/Band.cpp              | 2 ++
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index a675262..6116dff 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -71,10 +71,7 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
-  for (unsigned int i = 0; i < effectCount; i++) {
-    types::Effect e;
-    band.addEffect(e);
-  }
+  band.appendDefaultEffects(effectCount);
 
   return true;
 }
diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index 5928047..c32f52b 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -86,6 +86,7 @@ public:
   auto getEffectsSize() -> size_t;
   auto getEffectAt(int index) -> haptics::types::Effect &;
   auto addEffect(haptics::types::Effect &newEffect) -> void;
+  auto appendDefaultEffects(size_t count) -> void;
   auto replaceEffectAt(int index, haptics::types::Effect &newEffect) -> bool;
   auto removeEffectAt(int index) -> bool;
   [[nodiscard]] auto isOverlapping(haptics::types::Effect &effect, int start, int stop) -> bool;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..d81f2c5 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -94,6 +94,8 @@ auto Band::addEffect(Effect &newEffect) -> void {
   effects.insert(it, newEffect);
 }
 
+auto Band::appendDefaultEffects(size_t count) -> void { effects.resize(effects.size() + count); }
+
 auto Band::replaceEffectAt(int index, haptics::types::Effect &newEffect) -> bool {
   if (index < 0 || index >= (int)this->getEffectsSize()) {
     return false;
-- 
2.43.0


From bdf1b312658f4104a9f34c26b0752b38ef6d347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 30/42] fix: a silence longer than the unit duration field
 shifted everything after it

---
 source/IOHaptics/include/IOBinaryFields.h |  1 +
 source/IOHaptics/src/IOStream.cpp         | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryFields.h b/source/IOHaptics/include/IOBinaryFields.h
index 1411e9c..b3fd54b 100644
--- a/source/IOHaptics/include/IOBinaryFields.h
+++ b/source/IOHaptics/include/IOBinaryFields.h
@@ -48,6 +48,7 @@ static constexpr int UNIT_TYPE = 6;
 static constexpr int UNIT_SYNC = 2;
 static constexpr int UNIT_LAYER = 4;
 static constexpr int UNIT_DURATION = 24;
+static constexpr int MAX_UNIT_DURATION = (1 << UNIT_DURATION) - 1;
 static constexpr int UNIT_LENGTH = 32;
 static constexpr int UNIT_RESERVED = 4;
 
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index d046c56..5ddc12f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <algorithm>
 
 namespace haptics::io {
 
@@ -155,13 +156,16 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       std::vector<std::vector<bool>> firstPacket = std::vector<std::vector<bool>>{packet};
       std::vector<bool> silentUnit = std::vector<bool>();
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
-      if (silentUnit.size() > UNIT_TYPE) {
+      // a long silence takes several units
+      while (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
         if (isSyncPoint(haptic, swriter.time)) {
           std::vector<bool> syncUnit = std::vector<bool>();
           writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
           bitstream.push_back(syncUnit);
         }
+        silentUnit.clear();
+        writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       }
       first = false;
     }
@@ -184,7 +188,9 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
           writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
           bitstream.push_back(syncUnit);
         }
-        if (swriter.time != packetTS) {
+        auto silenceStart = swriter.time - 1;
+        while (swriter.time != packetTS && swriter.time != silenceStart) {
+          silenceStart = swriter.time;
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
@@ -423,14 +429,14 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
   if (listPackets.size() == 1) {
     int tFirst =
         readPacketTS(std::vector<bool>(listPackets[0].begin() + H_NBITS, listPackets[0].end()));
-    if (tFirst >= static_cast<int>(swriter.packetDuration)) {
+    if (tFirst - swriter.time >= static_cast<int>(swriter.packetDuration)) {
       std::bitset<UNIT_SYNC> syncBits(0);
       std::string syncStr = syncBits.to_string();
       IOBinaryPrimitives::writeStrBits(syncStr, mihsunit);
       std::bitset<UNIT_LAYER> layerBits(swriter.layer);
       std::string layerStr = layerBits.to_string();
       IOBinaryPrimitives::writeStrBits(layerStr, mihsunit);
-      int duration = tFirst;
+      int duration = std::min(tFirst - swriter.time, MAX_UNIT_DURATION);
       if (duration % swriter.packetDuration != 0) {
         duration = duration - (duration % static_cast<int>(swriter.packetDuration));
       }
@@ -458,7 +464,7 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
     int start = swriter.time;
     int end =
         readPacketTS(std::vector<bool>(listPackets[1].begin() + H_NBITS, listPackets[1].end()));
-    int duration = end - start;
+    int duration = std::min(end - start, MAX_UNIT_DURATION);
     if (duration % swriter.packetDuration != 0) {
       duration = duration - (duration % static_cast<int>(swriter.packetDuration));
     }
-- 
2.43.0


From 1eb0ecd7d0754c27306645a10a571123ae4a4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 31/42] fix: effect ids assigned by the stream encoder overflow
 the id field

With an effect of id 65535 in the experience, the encoder numbered the effects without id 65536, 65537, ...;
cut to the 16 bits of the field these are 0, 1, ..., so the receiver merged two effects of one band.
---
 source/IOHaptics/include/IOBinaryFields.h |  1 +
 source/IOHaptics/src/IOStream.cpp         | 27 +++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryFields.h b/source/IOHaptics/include/IOBinaryFields.h
index b3fd54b..f75aa20 100644
--- a/source/IOHaptics/include/IOBinaryFields.h
+++ b/source/IOHaptics/include/IOBinaryFields.h
@@ -142,6 +142,7 @@ static constexpr int MDBAND_UP_FREQ = 16;
 static constexpr int MDBAND_EFFECT_COUNT = 16;
 
 static constexpr int EFFECT_ID = 16;
+static constexpr int MAX_EFFECT_ID = (1 << EFFECT_ID) - 1;
 static constexpr int EFFECT_POSITION = 25;
 static constexpr int EFFECT_FLAG_SEMANTIC = 1;
 static constexpr int EFFECT_SEMANTIC_LAYER_1 = 4;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 5ddc12f..c16f5e0 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2015,12 +2015,7 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
-      int nextId = 0;
-      if (!swriter.effectsId.empty()) {
-        nextId = *max_element(swriter.effectsId.begin(), swriter.effectsId.end()) + 1;
-      }
-      effect.setId(nextId);
-      swriter.effectsId.push_back(nextId);
+      effect.setId(getNextEffectId(swriter.effectsId));
     }
 
     std::vector<bool> bufEffect = std::vector<bool>();
@@ -2811,12 +2806,7 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
   return effectsId;
 }
 auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool {
-  int nextId = 0;
-  if (!effectsId.empty()) {
-    nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
-  }
-  effect.setId(nextId);
-  effectsId.push_back(nextId);
+  effect.setId(getNextEffectId(effectsId));
   return true;
 }
 auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
@@ -2824,6 +2814,19 @@ auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
   if (!effectsId.empty()) {
     nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
   }
+  if (nextId > MAX_EFFECT_ID) {
+    // it would not fit in the id field: take the first id that is still free
+    std::vector<bool> used(MAX_EFFECT_ID + 1, false);
+    for (int id : effectsId) {
+      if (id >= 0 && id <= MAX_EFFECT_ID) {
+        used[id] = true;
+      }
+    }
+    const auto freeId = std::find(used.begin(), used.end(), false);
+    if (freeId != used.end()) {
+      nextId = static_cast<int>(freeId - used.begin());
+    }
+  }
   effectsId.push_back(nextId);
   return nextId;
 }
-- 
2.43.0


From ab50c9d84cc5902baf1f61ef4a01a8a6e3d24c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 32/42] fix: bands beyond the 256th of an experience are lost
 or mixed up by the stream reader

The 8-bit band id is counted over the whole experience and the reader looked bands up by that id alone, so from
band 256 on metadata replaced that of earlier bands and data went to the wrong index. Look bands up inside the
channel their packets name.
---
 source/IOHaptics/include/IOStream.h |  4 +++-
 source/IOHaptics/src/IOStream.cpp   | 14 ++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 7c52df3..35f08cf 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -77,6 +77,8 @@ public:
     int id = -1;
     types::Band band = types::Band();
     int index = -1;
+    int perceptionId = -1;
+    int channelId = -1;
   };
 
   struct CRC {
@@ -265,7 +267,7 @@ private:
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
   static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
-  static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
+  static auto searchBandInHaptic(StreamReader &sreader, const BandStream &bandStream) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
                              std::vector<types::Effect> &fxList, int &length) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c16f5e0..0da06b7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -748,7 +748,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
     int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
-    int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
+    int bandIndex = searchBandInHaptic(sreader, sreader.bandStream);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
@@ -1852,6 +1852,8 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
     return false;
   }
   sreader.channel = sreader.perception.getChannelAt(channelIndex);
+  sreader.bandStream.perceptionId = perceId;
+  sreader.bandStream.channelId = channelId;
 
   int priority = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_PRIORITY);
   if (priority != 0) {
@@ -2242,7 +2244,9 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.bandStream.index = -1;
   sreader.bandStream.id = -1;
   sreader.bandStream.id = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_ID);
-  sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream.id);
+  sreader.bandStream.perceptionId = perceptionId;
+  sreader.bandStream.channelId = channelId;
+  sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream);
   if (sreader.bandStream.index == -1 ||
       sreader.bandStream.index >= static_cast<int>(sreader.channel.getBandsSize())) {
     return false;
@@ -2671,9 +2675,11 @@ auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex
   return -1;
 }
 
-auto IOStream::searchBandInHaptic(StreamReader &sreader, int id) -> int {
+auto IOStream::searchBandInHaptic(StreamReader &sreader, const BandStream &bandStream) -> int {
+  // an experience can have more bands than there are band ids: they are unique inside a channel
   for (auto &bandBuf : sreader.bandStreamsHaptic) {
-    if (bandBuf.id == id) {
+    if (bandBuf.id == bandStream.id && bandBuf.perceptionId == bandStream.perceptionId &&
+        bandBuf.channelId == bandStream.channelId) {
       return bandBuf.index;
     }
   }
-- 
2.43.0


From 70e7589142b0f056470a6340c05b3ecc7a237263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 33/42] fix: JSON files of experiences with an effect semantic
 scheme cannot be loaded

The conformance check had a placeholder that declared every scheme URN invalid, so a file written by writeFile was
refused by loadFile. Check the URN's syntax instead.
---
 source/IOHaptics/include/IOJson.h | 1 +
 source/IOHaptics/src/IOJson.cpp   | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index e7cfcb1..9f1e8db 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -106,6 +106,7 @@ public:
   static auto versionCheck(const std::string &version, bool log) -> bool;
   static auto dateCheck(const std::string &date, bool log) -> bool;
   static auto URICheck(const std::string &uri, bool log) -> bool;
+  static auto URNCheck(const std::string &urn) -> bool;
   static auto schemaConformanceCheck(const rapidjson::Document &hjifFile,
                                      const std::string &filePath) -> bool;
   static auto semanticConformanceCheckExperience(types::Haptics &haptic) -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 4cac551..8775f61 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -92,6 +92,12 @@ auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
   return true;
 }
 
+auto IOJson::URNCheck(const std::string &urn) -> bool {
+  // RFC8141: urn:<namespace identifier>:<namespace specific string>
+  const std::regex txt_regex(R"(^[uU][rR][nN]:[A-Za-z0-9][A-Za-z0-9-]{0,30}[A-Za-z0-9]:[!-~]+$)");
+  return std::regex_match(urn, txt_regex);
+}
+
 auto IOJson::dateCheck(const std::string &date, bool log) -> bool {
   const std::regex txt_regex("[+-]?[0-9]{4}(-[01][0-9](-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:?([0-5]["
                              "0-9](.[0-9]+)?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
@@ -279,9 +285,8 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  // TODO
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN && !URNCheck(semanticSchemeURN.value())) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From a62ab516df1d3eec22634f41080dbd850795d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 34/42] fix: channel ids from 32768 on come back negative from
 a binary file

The 16-bit id was read into a short. The stream format and the effect ids use the whole range.
---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index d9b5be5..a6528fb 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -597,7 +597,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
   // for each channel
   for (unsigned short i = 0; i < channelCount; i++) {
     types::Channel t;
-    t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
+    t.setId(IOBinaryPrimitives::readNBits<uint16_t, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
     t.setReferenceDeviceId(
-- 
2.43.0


From 5aa05bd30aaf77417e4fb8f86a55b57595071ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 35/42] fix: amplitudes and phases sank by one step with every
 save of a loaded experience

The quantised floats of the binary and stream formats were cut to the step below. A value read from a file can lie a
rounding error below its own step, so saving what was loaded moved 63 of the 256 amplitudes and half of the phases
down by one. Write the nearest step.
---
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 9ac356b..b2c4223 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -120,7 +120,7 @@ public:
     auto normalizedValue = (value - minValue) / (maxValue - minValue);
     normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
-- 
2.43.0


From 4f07d763ef6e59e885f9877cd0ed8ae28794cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 36/42] fix: channels without reference device come back with
 device 255 from a binary file

The binary reader took the value that stands for no device as an id; such an experience could be saved as JSON, but
the JSON file was refused as it named a device that does not exist. Same convention as in the stream reader.
---
 source/IOHaptics/src/IOBinary.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index a6528fb..6392594 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -600,8 +600,11 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<uint16_t, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    // the largest value stands for a channel without reference device
+    auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (deviceId < REFDEV_MAX_ID) {
+      t.setReferenceDeviceId(deviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
-- 
2.43.0


From 16513dd362bd2a79665790d6d19d94a2b83c495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 37/42] fix: reading a unit of many packets took quadratic time

---
 source/IOHaptics/src/IOStream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0da06b7..d95409d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -281,9 +281,16 @@ auto IOStream::readMIHSUnitContent(std::vector<bool> &mihsunit, StreamReader &sr
   IOBinaryPrimitives::checkAvailable(mihsunit, index, unitLength);
   const auto unitEnd = static_cast<size_t>(index) + unitLength;
   while (static_cast<size_t>(index) < unitEnd) {
-    std::vector<bool> packets =
-        std::vector<bool>(mihsunit.begin() + index, mihsunit.begin() + static_cast<long>(unitEnd));
-    if (!readMIHSPacket(packets, sreader, crc)) {
+    // the packet only: copying the rest of the unit for each of its packets takes quadratic time
+    int lengthIdx = index + H_MIHS_PACKET_TYPE;
+    const auto packetEnd =
+        static_cast<size_t>(index) + H_NBITS +
+        static_cast<size_t>(IOBinaryPrimitives::readUInt(mihsunit, lengthIdx, H_PAYLOAD_LENGTH)) *
+            BYTE_SIZE;
+    std::vector<bool> packet =
+        std::vector<bool>(mihsunit.begin() + index,
+                          mihsunit.begin() + static_cast<long>(std::min(packetEnd, unitEnd)));
+    if (!readMIHSPacket(packet, sreader, crc)) {
       return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
-- 
2.43.0


From a44c7fa285f2873d7bd5b63bb41b35e55daf9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 38/42] fix: a timing packet after a time scale of zero stopped
 the receiver with a division by zero

---
 source/IOHaptics/src/IOStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index d95409d..de2f94b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -713,6 +713,9 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
                                                 packet.begin() + index + sreader.packetLength);
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
+    if (sreader.timescale == 0) {
+      return false;
+    }
     readTiming(sreader, payload);
     sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
     return true;
-- 
2.43.0


From 62d9d546143e86df681792c6e2460684ffa9d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 39/42] fix: effects received at the end of the clock's range
 overflowed their position

---
 source/IOHaptics/src/IOStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index de2f94b..9c5ae9c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2796,8 +2796,8 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
 }
 auto IOStream::addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool {
   for (auto &e : effects) {
-    int relativeTime = e.getPosition();
-    e.setPosition(relativeTime + timestamp);
+    const int64_t relativeTime = e.getPosition();
+    e.setPosition(static_cast<int>(relativeTime + timestamp));
   }
   return true;
 }
-- 
2.43.0


From afeed84b4260e8ac22ebd743075f04b3af23853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 40/42] fix: encoding a stream with a packet duration of zero
 or less never ended

---
 source/IOHaptics/src/IOStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9c5ae9c..35b0551 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -132,6 +132,10 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
 
 auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>> &bitstream,
                           int packetDuration) -> bool {
+  if (packetDuration <= 0 || packetDuration > MAX_UNIT_DURATION) {
+    std::cerr << "Invalid packet duration: " << packetDuration << std::endl;
+    return false;
+  }
   StreamWriter swriter;
   swriter.haptic = haptic;
   swriter.packetDuration = packetDuration;
-- 
2.43.0


From 51804d033832eb1259414157f10567559829d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 41/42] fix: the encoder left out elements of unknown type and
 reported success

---
 source/Encoder/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 34fc703..3cdf6e7 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -229,6 +229,9 @@ auto main(int argc, char *argv[]) -> int {
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
+      } else {
+        std::cerr << "ERROR : unknown type of haptic file : " << filename << std::endl;
+        codeExit = EXIT_FAILURE;
       }
 
       if (codeExit == EXIT_SUCCESS) {
-- 
2.43.0


From d137492639b8b38fabfaaa93bea1c31fef64e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 42/42] fix: metadata left out of a later initialisation kept
 its old value at the receiver

---
 source/Types/include/Band.h       |  2 +-
 source/Types/include/Channel.h    |  4 ++--
 source/Types/include/Perception.h |  4 ++--
 source/Types/src/Band.cpp         |  2 +-
 source/Types/src/Channel.cpp      |  8 +++-----
 source/Types/src/Haptics.cpp      |  9 ++-------
 source/Types/src/Perception.cpp   | 14 +++++---------
 7 files changed, 16 insertions(+), 27 deletions(-)

diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index c32f52b..8d442e4 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -72,7 +72,7 @@ public:
   auto setBandType(BandType newBandType) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getCurveTypeOrDefault() const -> CurveType;
   [[nodiscard]] auto getCurveType() const -> std::optional<CurveType>;
   auto setCurveType(CurveType newCurveType) -> void;
diff --git a/source/Types/include/Channel.h b/source/Types/include/Channel.h
index 661aeb3..4eadbef 100644
--- a/source/Types/include/Channel.h
+++ b/source/Types/include/Channel.h
@@ -76,7 +76,7 @@ public:
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getGain() const -> float;
   auto setGain(float newGain) -> void;
   [[nodiscard]] auto getMixingWeight() const -> float;
@@ -84,7 +84,7 @@ public:
   [[nodiscard]] auto getBodyPartMask() const -> uint32_t;
   auto setBodyPartMask(uint32_t newBodyPartMask) -> void;
   [[nodiscard]] auto getReferenceDeviceId() const -> std::optional<int>;
-  auto setReferenceDeviceId(int newReferenceDeviceId) -> void;
+  auto setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void;
   auto getVerticesSize() -> size_t;
   auto getVertexAt(int index) -> int &;
   auto addVertex(int &newVertice) -> void;
diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..37a2e16 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -111,14 +111,14 @@ public:
   auto setAvatarId(int newAvatarId) -> void;
   [[nodiscard]] auto getEffectSemanticSchemeOrDefault() const -> std::string;
   [[nodiscard]] auto getEffectSemanticScheme() const -> std::optional<std::string>;
-  auto setEffectSemanticScheme(std::string &newEffectSemantic) -> void;
+  auto setEffectSemanticScheme(std::optional<std::string> newEffectSemantic) -> void;
   [[nodiscard]] auto getId() const -> int;
   auto setId(int newId) -> void;
   [[nodiscard]] auto getDescription() const -> std::string;
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getPerceptionModality() const -> PerceptionModality;
   auto setPerceptionModality(PerceptionModality newPerceptionModality) -> void;
   [[nodiscard]] auto getUnitExponent() const -> std::optional<int8_t>;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index d81f2c5..e39ef3c 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -47,7 +47,7 @@ auto Band::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Band::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Band::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Band::getCurveTypeOrDefault() const -> CurveType {
   if (curveType.has_value()) {
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index db69f3e..a183f25 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -50,7 +50,7 @@ auto Channel::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Channel::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Channel::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Channel::getGain() const -> float { return gain; }
 
@@ -67,7 +67,7 @@ auto Channel::setBodyPartMask(uint32_t newBodyPartMask) -> void { bodyPartMask =
 [[nodiscard]] auto Channel::getReferenceDeviceId() const -> std::optional<int> {
   return referenceDeviceId;
 }
-auto Channel::setReferenceDeviceId(int newReferenceDeviceId) -> void {
+auto Channel::setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void {
   referenceDeviceId = newReferenceDeviceId;
 }
 
@@ -96,9 +96,7 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
-  if (newBand.getPriority().has_value()) {
-    bands[index].setPriority(newBand.getPriority().value());
-  }
+  bands[index].setPriority(newBand.getPriority());
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index 99d6293..2d956cf 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -76,18 +76,13 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   }
   perceptions[index].setId(newPerception.getId());
   perceptions[index].setAvatarId(newPerception.getAvatarId());
-  if (newPerception.getPriority().has_value()) {
-    perceptions[index].setPriority(newPerception.getPriority().value());
-  }
+  perceptions[index].setPriority(newPerception.getPriority());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  if (newPerception.getEffectSemanticScheme().has_value()) {
-    auto semantic = newPerception.getEffectSemanticScheme().value();
-    perceptions[index].setEffectSemanticScheme(semantic);
-  }
+  perceptions[index].setEffectSemanticScheme(newPerception.getEffectSemanticScheme());
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 2d15768..5b85737 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -53,8 +53,8 @@ auto Perception::setAvatarId(int newAvatarId) -> void { avatarId = newAvatarId;
 [[nodiscard]] auto Perception::getEffectSemanticScheme() const -> std::optional<std::string> {
   return effectSemanticScheme;
 }
-auto Perception::setEffectSemanticScheme(std::string &newEffectSemantic) -> void {
-  effectSemanticScheme = newEffectSemantic;
+auto Perception::setEffectSemanticScheme(std::optional<std::string> newEffectSemantic) -> void {
+  effectSemanticScheme = std::move(newEffectSemantic);
 }
 
 [[nodiscard]] auto Perception::getDescription() const -> std::string { return description; }
@@ -71,7 +71,7 @@ auto Perception::getPriorityOrDefault() const -> int {
   return 0;
 }
 
-auto Perception::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Perception::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Perception::getPerceptionModality() const -> PerceptionModality {
   return perceptionModality;
@@ -123,9 +123,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
     return false;
   }
   channels[index].setId(newChannel.getId());
-  if (newChannel.getPriority().has_value()) {
-    channels[index].setPriority(newChannel.getPriority().value());
-  }
+  channels[index].setPriority(newChannel.getPriority());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
   channels[index].setGain(newChannel.getGain());
@@ -135,9 +133,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   for (auto i = 0; i < static_cast<int>(newChannel.getVerticesSize()); i++) {
     channels[index].addVertex((newChannel.getVertexAt(i)));
   }
-  if (newChannel.getReferenceDeviceId().has_value()) {
-    channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId().value());
-  }
+  channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId());
   channels[index].setFrequencySampling(newChannel.getFrequencySampling());
   channels[index].setSampleCount(newChannel.getSampleCount());
   channels[index].setDirection(newChannel.getDirection());
-- 
2.43.0

