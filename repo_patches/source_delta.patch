From e406c17e95c44016557efe7ed390d57f0f15ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 01/39] fix: read_uint64 decodes an unsigned value

It read a signed 64-bit integer, so values from 2**63 came back negative and
could not be written again with write_uint64.
---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From 0aaa7079100382eec69b585cfbfce454dc1237af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 02/39] fix: read_bytes and read_utf reject a truncated stream

All the other primitives fail when the stream ends early; these two returned
whatever was left, so a truncated PDU was accepted.
---
 opendis/stream.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..e2b0a43 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -66,8 +66,13 @@ class DataInputStream:
         return struct.unpack('>I', self.stream.read(4))[0]
 
     def read_bytes(self, n: int) -> bytes:
-        """Read n bytes from the stream."""
-        return self.stream.read(n)
+        """Read exactly n bytes from the stream."""
+        if n < 0:
+            raise ValueError(f"Cannot read a negative number of bytes: {n}")
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError(f"Expected {n} bytes, got {len(data)}")
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 4227d0115e7f980d8f2a866746a72761f53f6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 03/39] fix: read_char8 and write_char8 both use one unsigned
 octet

read_char8 consumed two octets while write_char8 wrote one.
---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index e2b0a43..070694b 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -76,7 +76,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -156,7 +156,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From ceb6ed6cc1a103cdee5dc7e2fb85d1d4df799f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 04/39] fix: Standard Variable records carry one type/length
 header

The base class wrote recordLength as 32 bits and most subclasses wrote the type
and length again, so these records came out 8 (or 2) octets too long and could
not be parsed back.
---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From e59414edd4e8a4823157d6e2266a406b93dc7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 05/39] fix: DirectedEnergyAreaAimpoint length counts its count
 fields and padding

marshalledSize left out the two 16-bit counts, and nothing padded the record to
the multiple of 8 octets that StandardVariableRecord.parse requires, so no Area
Aimpoint record could be parsed back.
---
 opendis/record/warfare/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..8eda2fa 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,13 +126,20 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    def _unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, record counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
+
+    def _paddingSize(self) -> int:
+        # Pad the record to a multiple of 8 octets
+        return -self._unpaddedSize() % 8
+
+    def marshalledSize(self) -> int:
+        return self._unpaddedSize() + self._paddingSize()
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
@@ -146,6 +153,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
 
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
+        outputStream.write_bytes(bytes(self._paddingSize()))
 
     def parse(self,
               inputStream: DataInputStream,
@@ -163,6 +171,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        inputStream.read_bytes(self._paddingSize())
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From 3d4ae83b0500a215669ec505921b95448f06487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 06/39] fix: unrecognised standard variable records are
 accepted as placeholders

The placeholder class was never a subclass of the expected record type, so any
PDU carrying an unknown VTP or damage description record raised TypeError.
---
 opendis/record/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..998cd38 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,9 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    # It derives from the expected type, so that a PDU can carry unrecognised
+    # records wherever it can carry recognised ones.
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 8c986ebed13e3726bb6624885444cc5692759c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 07/39] fix: parseStandardVariableRecord honours the declared
 record length

A recognised record whose recordLength differs from the size this library knows
left the stream misaligned for everything after it.
---
 opendis/dis7.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..35d10b9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2,6 +2,7 @@
 #This code is licensed under the BSD software license
 #
 
+from io import BytesIO
 from typing import Sequence
 
 from .record import (
@@ -64,7 +65,11 @@ def parseStandardVariableRecord(
     recordLength = inputStream.read_uint16()
     svClass = getStandardVariableClass(recordType, expectedType)
     sv_instance = svClass()
-    sv_instance.parse(inputStream, recordLength)
+    # recordLength includes the recordType and recordLength fields (6 octets).
+    # Take the whole record off the stream, so that the next one starts where
+    # this one says it ends.
+    body = inputStream.read_bytes(recordLength - 6)
+    sv_instance.parse(DataInputStream(BytesIO(body)), recordLength)
     return sv_instance
 
 
-- 
2.43.0


From 57f91e418dd3527d860ad520374ee58754f377f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 08/39] fix: UnknownAntennaPattern reads all its octets

The antenna pattern record has no type/length header of its own, yet six octets
were left unread, which misaligned the rest of the Transmitter PDU.
---
 opendis/record/radio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..699c77c 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -96,7 +96,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
         # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From db12f5711cc347d374524a036bc506b8cd702049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 09/39] fix: SpreadSpectrum and DEFireFlags keep their padding
 bits

One dropped them on parse, the other on serialize.
---
 opendis/record/radio/__init__.py | 1 +
 opendis/record/warfare/enums.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 699c77c..36d6f97 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -213,6 +213,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..f2b2eac 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From dafc6612df3e08456d602f8553096d9ea5160665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 10/39] fix: TransmitterPdu honours the declared record lengths

Modulation parameters and antenna patterns whose declared length is not the
size of the known record (for generic radios, any length at all) were read with
the wrong number of octets, misaligning the rest of the PDU. Such records are
now kept as opaque octets.
---
 opendis/dis7.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 35d10b9..2ba7cd8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5085,16 +5085,16 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if radio.marshalledSize() != modulationParametersLength:
+                # Not the layout this library knows: keep the octets as they are
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5103,13 +5103,15 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         if antennaPatternLength > 0:
             if self.antennaPatternType == 1:
                 self.antennaPattern = BeamAntennaPattern()
-                self.antennaPattern.parse(inputStream)
             else:
                 self.antennaPattern = UnknownAntennaPattern()
-                self.antennaPattern.parse(
-                    inputStream,
-                    bytelength=antennaPatternLength
-                )
+            if self.antennaPattern.marshalledSize() != antennaPatternLength:
+                # Not the layout this library knows: keep the octets as they are
+                self.antennaPattern = UnknownAntennaPattern()
+            self.antennaPattern.parse(
+                inputStream,
+                bytelength=antennaPatternLength
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 9a88f5c6daecbcc8b20f3c9458d1b0c00fac471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 11/39] fix: EntityMarking characters are unsigned octets

Characters from 128 up could not be written, and were parsed as negative values
that charactersString then rejected.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2ba7cd8..f69e050 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1239,14 +1239,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From f755f048037a6dbc6328b55f5c0a09640c01b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 12/39] fix: FastEntityStatePdu uses unsigned fields like
 EntityStatePdu

More than 127 variable parameters, and appearance, capabilities, marking and
dead reckoning octets with the top bit set, could not be written or came back
negative.
---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f69e050..df5b35a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5775,7 +5775,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5799,10 +5799,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5811,9 +5811,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5824,7 +5824,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5848,11 +5848,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5864,11 +5864,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From 49da1bdc1648444cbb0d32d7a53f1ed49c931c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 13/39] fix: 8-bit enumerations of DesignatorPdu and UaPdu are
 unsigned

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index df5b35a..14898d8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4736,7 +4736,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4752,7 +4752,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
@@ -6837,7 +6837,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6856,7 +6856,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From c7487ff9992325b1e95a770c0c7944a82e0c229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 14/39] fix: IntercomControlPdu can be serialized and parsed

The default object raised TypeError on serialize and every parse raised; the
source device ID was written as 8 bits, and the parameter length counted
records instead of octets.
---
 opendis/dis7.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 14898d8..c3c2679 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6898,7 +6898,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: "list[IntercomCommunicationsParameters] | None" = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6917,14 +6917,12 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
-        """^^^This is wrong the length of the data field is variable. Using a long for now."""
+        self.intercomParameters = intercomParameters or []
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        # Number of octets; each parameter record is serialized as 8 octets
+        return len(self.intercomParameters) * 8
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6932,7 +6930,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6949,7 +6947,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
@@ -6958,7 +6956,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From df4f232b1fee4a9483509df3aaba55d662f06bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 15/39] fix: EventReportReliablePdu.eventType is a 32-bit field

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index c3c2679..604486f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7246,14 +7246,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From 91385bf2a1c79cf727e8d19e53647e760d8e50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 16/39] fix: StorageFuelReload reload times are 32-bit fields

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 604486f..185d9be 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2982,8 +2982,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2993,8 +2993,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 17ce5bd6e645feaf5d9d6bbb0b2f7f3a3198807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 17/39] fix: PduHeader length is 16 bits and status 8 bits, not
 the reverse

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 185d9be..80c0caa 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3410,8 +3410,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3421,8 +3421,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From a7034b106070f68db7bda1dc836d7eaa388447be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 18/39] fix: EventReportPdu exposes its datum records like the
 other datum PDUs

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 80c0caa..9595078 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5494,6 +5494,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 7a641e2581b4b41ff7c08709359f4ff87992ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 19/39] fix: four constructors ignored their arguments

DataQueryPdu, EngineFuel, AngularVelocityVector and AggregateMarking discarded
the values they were given.
---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9595078..db928fb 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1976,13 +1976,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
@@ -2713,11 +2713,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
@@ -2745,7 +2745,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
@@ -4074,8 +4074,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 6cd3fc55f7bfaa0ac0ca826762649cbba460c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 20/39] fix: lists of plain values are serialized and parsed

Five records called serialize() on integers and null() (an undefined name) on
parse, so any non-empty list raised.
---
 opendis/dis7.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index db928fb..65d68f0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2139,7 +2139,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2155,9 +2155,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
-            self.xiValues.append(element)
+            self.xiValues.append(inputStream.read_unsigned_short())
 
 
 class SupplyQuantity:
@@ -2210,7 +2208,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2218,9 +2216,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
-            self.appearanceRecordList.append(element)
+            self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
 
 class SilentAggregateSystem:
@@ -4265,7 +4261,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4280,9 +4276,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
-            self.data.append(element)
+            self.data.append(inputStream.read_unsigned_byte())
 
 
 class RemoveEntityPdu(SimulationManagementFamilyPdu):
@@ -6586,7 +6580,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6599,9 +6593,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
-            self.recordIDs.append(element)
+            self.recordIDs.append(inputStream.read_unsigned_int())
 
 
 class ActionResponsePdu(SimulationManagementFamilyPdu):
@@ -7307,7 +7299,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7318,9 +7310,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
-            self.missingPduSequenceNumbers.append(element)
+            self.missingPduSequenceNumbers.append(inputStream.read_unsigned_byte())
 
 
 class ActionResponseReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
-- 
2.43.0


From da1423cc972be60a01cdb9953700e0cf51a1c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 21/39] fix: ResupplyReceivedPdu and SeesPdu parse their record
 lists

The element class was the undefined name null.
---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 65d68f0..51bdf4b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4349,7 +4349,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
@@ -7125,12 +7125,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From 8b9f1deb30e351c11f929ab29836a7c85d96fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 22/39] fix: RecordSpecification and
 StandardVariableSpecification parse

The element class was the undefined name null.
---
 opendis/dis7.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 51bdf4b..adacd4e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2611,8 +2611,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(
+                inputStream,
+                StandardVariableRecord
+            )
             self.standardVariables.append(element)
 
 
@@ -3286,7 +3288,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From bed61b3b6f2ac7741f2b6aa5c037171608908a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 23/39] fix: LinearObjectStatePdu can be constructed

The constructor assigned an undefined name to a read-only property, so every
instantiation, including decoding a type 44 PDU, raised NameError.
---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index adacd4e..8aaf0f6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4136,8 +4136,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0


From 3bfa2d95dbe49f9b8fa3ed65794de5e7b8818038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 24/39] fix: AttributePdu has a PDU type

Without pduType its header could not be serialized.
---
 opendis/dis7.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8aaf0f6..f262bce 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5339,6 +5339,7 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From fe22332680ebff562984023861c3219a9e02bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 25/39] fix: AttachedParts serializes its attachedPartType

serialize raised AttributeError (parameterValue does not exist); the 64-bit
value is the Entity Type record held in attachedPartType.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f262bce..893e723 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -805,7 +805,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -813,7 +813,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From f0d979a16b1b569c6a190a380447b39dc2d6e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 26/39] fix: SeparationVP.stationLocation is a record

serialize raised struct.error on the NamedLocationIdentification default.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 893e723..dabd377 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3611,7 +3611,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3621,7 +3621,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From 77fa71dc7005d34fc63aaf404e5573fc66a4d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 27/39] fix: SilentAggregateSystem serializes its aggregateType

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index dabd377..a6d037b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2235,7 +2235,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 4c41310e521339f987d62f979db34b0e903ff893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 28/39] fix: Environment and EnvironmentGeneral use their
 padding attributes

serialize raised AttributeError.
---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a6d037b..082efba 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2661,14 +2661,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
@@ -3187,7 +3187,7 @@ class EnvironmentGeneral:
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
-- 
2.43.0


From c45a18affa13a686c634db006863fd852b0cfbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 29/39] fix: IFFData record length includes its 6 header octets

parse subtracts them, so the last 6 data octets were lost on a round trip and
the rest of the PDU was misread.
---
 opendis/dis7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 082efba..e36f326 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -189,7 +189,8 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        # The record length includes the record type and length fields (6 bytes)
+        outputStream.write_unsigned_short(len(self.iffData) + 6)
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From ec3f6f50933a5fbf797f48e448a0cb6540f2f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 30/39] fix: DirectedEnergyFirePdu serializes
 cumulativeShotTime

A misspelt attribute made serialize raise AttributeError.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e36f326..6a409d1 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6381,7 +6381,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6401,7 +6401,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From dbc96ac27d1a3a77385a3335443145b265f9a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 31/39] fix: VariableDatum keeps a final partial octet

A length that is not a multiple of 8 bits dropped the last octet and left the
record 1 octet short of its 64-bit boundary.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6a409d1..4ba49e6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3323,7 +3323,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3334,7 +3334,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From 0d4c2d3e9d289f82b675a5ae4441abe0769245e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 32/39] fix: parse replaces list contents instead of appending
 to them

Parsing into an object that already held list elements kept the old elements,
so the object no longer described the PDU just read and its counts were wrong.
---
 opendis/dis7.py | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4ba49e6..16caeb6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -109,9 +109,11 @@ class DataQueryDatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumIDs = inputStream.read_unsigned_int()
         numberOfVariableDatumIDs = inputStream.read_unsigned_int()
+        self.fixedDatumIDs = []
         for idx in range(0, numberOfFixedDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.fixedDatumIDs.append(datumID)
+        self.variableDatumIDs = []
         for idx in range(0, numberOfVariableDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.variableDatumIDs.append(datumID)
@@ -202,6 +204,7 @@ class IFFData:
         # The record length includes the length of record type field (32 bits)
         # and record length field (16 bits) so we subtract 6 bytes total for
         # those
+        self.iffData = []
         for idx in range(0, self.recordLength - 6):
             val = inputStream.read_unsigned_byte()
             self.iffData.append(val)
@@ -745,6 +748,7 @@ class IFFDataSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfIFFDataRecords = inputStream.read_unsigned_short()
+        self.iffDataRecords = []
         for idx in range(0, numberOfIFFDataRecords):
             element = IFFData()
             element.parse(inputStream)
@@ -869,6 +873,7 @@ class RecordQuerySpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             val = inputStream.read_unsigned_int()
             self.recordIDs.append(val)
@@ -1632,11 +1637,13 @@ class DatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumRecords = inputStream.read_unsigned_int()
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.fixedDatumRecords = []
         for idx in range(0, numberOfFixedDatumRecords):
             element = FixedDatum()
             element.parse(inputStream)
             self.fixedDatumRecords.append(element)
 
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
@@ -2155,6 +2162,7 @@ class GridAxisDescriptorVariable:
         self.initialIndex = inputStream.read_unsigned_short()
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
+        self.xiValues = []
         for idx in range(0, self.numberOfPointsOnXiAxis):
             self.xiValues.append(inputStream.read_unsigned_short())
 
@@ -2216,6 +2224,7 @@ class SilentEntitySystem:
         self.numberOfEntities = inputStream.read_unsigned_short()
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
+        self.appearanceRecordList = []
         for idx in range(0, numberOfAppearanceRecords):
             self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
@@ -2611,6 +2620,7 @@ class StandardVariableSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
+        self.standardVariables = []
         for idx in range(0, numberOfStandardVariableRecords):
             element = parseStandardVariableRecord(
                 inputStream,
@@ -3288,6 +3298,7 @@ class RecordSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
+        self.recordSets = []
         for idx in range(0, numberOfRecordSets):
             element = RecordSpecificationElement()
             element.parse(inputStream)
@@ -3334,6 +3345,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
+        self.variableData = []
         for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
@@ -3818,6 +3830,7 @@ class EntityStateUpdatePdu(EntityInformationFamilyPdu):
         self.entityLocation.parse(inputStream)
         self.entityOrientation.parse(inputStream)
         self.entityAppearance = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -3870,6 +3883,7 @@ class ServiceRequestPdu(LogisticsFamilyPdu):
         self.serviceTypeRequested = inputStream.read_unsigned_byte()
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.serviceRequestPadding = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4171,6 +4185,7 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
         self.objectType.parse(inputStream)
+        self.linearSegmentParameters = []
         for idx in range(0, numberOfSegments):
             element = LinearSegmentParameter()
             element.parse(inputStream)
@@ -4276,6 +4291,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         self.samples = inputStream.read_unsigned_short()
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
+        self.data = []
         for idx in range(0, dataLength // 8):
             self.data.append(inputStream.read_unsigned_byte())
 
@@ -4349,6 +4365,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4881,6 +4898,7 @@ class EntityStatePdu(EntityInformationFamilyPdu):
         self.deadReckoningParameters.parse(inputStream)
         self.marking.parse(inputStream)
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -5110,6 +5128,7 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         else:
             self.antennaPattern = None
         
+        self.variableTransmitterParameters = []
         for _ in range(0, variableTransmitterParameterCount):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -5165,6 +5184,7 @@ class ElectromagneticEmissionsPdu(DistributedEmissionsFamilyPdu):
         numberOfSystems = inputStream.read_unsigned_byte()
         self.paddingForEmissionsPdu = inputStream.read_unsigned_short()
 
+        self.systems = []
         for idx in range(0, numberOfSystems):
             element = EmissionSystemRecord()
             element.parse(inputStream)
@@ -5227,6 +5247,7 @@ class EmissionSystemBeamRecord:
         self.beamStatus.parse(inputStream)
         self.jammingModeSequence = inputStream.read_unsigned_int()
 
+        self.trackJamRecords = []
         for idx in range(0, numberOfTargetsInTrackJam):
             element = TrackJamData()
             element.parse(inputStream)
@@ -5272,6 +5293,7 @@ class EmissionSystemRecord:
         inputStream.read_unsigned_short()  # 16 bit padding
         self.emitterSystem.parse(inputStream)
         self.location.parse(inputStream)
+        self.beamRecords = []
         for idx in range(0, numberOfBeams):
             element = EmissionSystemBeamRecord()
             element.parse(inputStream)
@@ -5323,6 +5345,7 @@ class ResupplyOfferPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_byte()
         self.padding2 = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -5881,6 +5904,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
             self.marking[idx] = val
 
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6038,6 +6062,7 @@ class ArealObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         numberOfPoints = inputStream.read_unsigned_short()
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
+        self.objectLocation = []
         for idx in range(0, numberOfPoints):
             element = WorldCoordinates()
             element.parse(inputStream)
@@ -6180,11 +6205,13 @@ class MinefieldStatePdu(MinefieldFamilyPdu):
         self.minefieldOrientation.parse(inputStream)
         self.appearance = inputStream.read_unsigned_short()
         self.protocolMode = inputStream.read_unsigned_short()
+        self.perimeterPoints = []
         for idx in range(0, numberOfPerimeterPoints):
             element = Vector2Float()
             element.parse(inputStream)
             self.perimeterPoints.append(element)
 
+        self.mineTypes = []
         for idx in range(0, numberOfMineTypes):
             element = EntityType()
             element.parse(inputStream)
@@ -6414,6 +6441,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         self.padding3 = inputStream.read_uint32()
         self.padding4 = inputStream.read_uint16()
         numberOfDERecords = inputStream.read_uint16()
+        self.dERecords = []
         for _ in range(0, numberOfDERecords):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -6488,6 +6516,7 @@ class DetonationPdu(WarfareFamilyPdu):
         self.detonationResult = inputStream.read_unsigned_byte()
         numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_unsigned_short()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6594,6 +6623,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.eventType = inputStream.read_unsigned_short()
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             self.recordIDs.append(inputStream.read_unsigned_int())
 
@@ -6686,6 +6716,7 @@ class EntityDamageStatusPdu(WarfareFamilyPdu):
         self.padding1 = inputStream.read_uint16()
         self.padding2 = inputStream.read_uint16()
         damageDescriptionCount = inputStream.read_uint16()
+        self.damageDescriptions = []
         for _ in range(0, damageDescriptionCount):
             record = parseStandardVariableRecord(
                 inputStream,
@@ -6873,14 +6904,17 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         numberOfShafts = inputStream.read_unsigned_byte()
         numberOfAPAs = inputStream.read_unsigned_byte()
         numberOfUAEmitterSystems = inputStream.read_unsigned_byte()
+        self.shaftRPMs = []
         for idx in range(0, numberOfShafts):
             element = null()
             element.parse(inputStream)
             self.shaftRPMs.append(element)
+        self.apaData = []
         for idx in range(0, numberOfAPAs):
             element = null()
             element.parse(inputStream)
             self.apaData.append(element)
+        self.emitterSystems = []
         for idx in range(0, numberOfUAEmitterSystems):
             element = null()
             element.parse(inputStream)
@@ -6966,6 +7000,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
+        self.intercomParameters = []
         for idx in range(0, intercomParametersLength // 8):
             element = IntercomCommunicationsParameters()
             element.parse(inputStream)
@@ -7028,6 +7063,7 @@ class SignalPdu(RadioCommunicationsFamilyPdu):
         self.sampleRate = inputStream.read_unsigned_int()
         dataLength = inputStream.read_unsigned_short()
         self.samples = inputStream.read_unsigned_short()
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -7126,11 +7162,13 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         )
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
+        self.propulsionSystemData = []
         for idx in range(0, numberOfPropulsionSystems):
             element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
+        self.vectoringSystemData = []
         for idx in range(0, numberOfVectoringNozzleSystems):
             element = VectoringNozzleSystem()
             element.parse(inputStream)
@@ -7311,6 +7349,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestingEntityID.parse(inputStream)
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
+        self.missingPduSequenceNumbers = []
         for idx in range(0, numberOfMissingPdus):
             self.missingPduSequenceNumbers.append(inputStream.read_unsigned_byte())
 
@@ -7530,23 +7569,28 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         numberOfEntityIDs = inputStream.read_unsigned_short()
         numberOfSilentAggregateSystems = inputStream.read_unsigned_short()
         numberOfSilentEntitySystems = inputStream.read_unsigned_short()
+        self.aggregateIDs = []
         for idx in range(0, numberOfAggregateIDs):
             element = AggregateIdentifier()
             element.parse(inputStream)
             self.aggregateIDs.append(element)
+        self.entityIDs = []
         for idx in range(0, numberOfEntityIDs):
             element = EntityIdentifier()
             element.parse(inputStream)
             self.entityIDs.append(element)
+        self.silentAggregateSystems = []
         for idx in range(0, numberOfSilentAggregateSystems):
             element = SilentAggregateSystem()
             element.parse(inputStream)
             self.silentAggregateSystems.append(element)
+        self.silentEntitySystems = []
         for idx in range(0, numberOfSilentEntitySystems):
             element = SilentEntitySystem()
             element.parse(inputStream)
             self.silentEntitySystems.append(element)
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
-- 
2.43.0


From 57e30df5c45c54b9a4f5eb32c8c4aa558428b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 33/39] fix: PduFactory decodes every complete PDU class under
 its own type

Type 6 decoded as CollisionElasticPdu and 41 as PointObjectStatePdu, while
SeesPdu, StartResumeReliablePdu and DirectedEnergyFirePdu were unreachable.
---
 opendis/PduFactory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
@@ -36,18 +36,19 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -60,6 +61,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From 2f7a0d1c2bc880e6db9ac216d7b3a569a0b29e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 34/39] fix: UTM latitude band X extends to 84 degrees

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..04b9b40 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -560,7 +560,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From aee91cbd72266a9cae86c603e927ec40405bf338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 35/39] fix: UTM zone of the 180th meridian is 1, not 61

---
 opendis/RangeCoordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 04b9b40..96207c3 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -342,6 +342,8 @@ class GPS:
         lat = lla[0]
         lon = lla[1]
         alt = lla[2]
+        #The 180th meridian belongs to zone 1
+        if lon == 180.: lon = -180.
         #Determine the zone number
         zoneNumber = int((lon+180.)/6) + 1
         #Special zone for Norway
-- 
2.43.0


From 2fb2cecef3c080a09a8704444c9254be447d0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 36/39] fix: ecef2lla stays accurate near the poles and at high
 altitude

p / cos(lat) - N lost metres within a kilometre of a pole and kilometres (or a
math domain error) closer in; sinLat of an early iteration could exceed 1/e far
out and raise the same error.
---
 opendis/RangeCoordinates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 96207c3..e11e564 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -150,8 +150,9 @@ class GPS:
             previousLat = lat
             sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
             lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
-            N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sin(lat))**2)
+            # p / cos(lat) - N, in a form that stays accurate near the poles
+            alt = p * cos(lat) + z * sin(lat) - self.wgs84.a**2 / N
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From b9307fcabc5bfaa3a64f258f1f1527d365405ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 37/39] fix: DirectedEnergyAreaAimpoint.parse replaces its
 record lists

---
 opendis/record/warfare/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 8eda2fa..0c65646 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -163,10 +163,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         self.padding = inputStream.read_uint16()
         beamAntennaPatternCount = inputStream.read_uint16()
         directedEnergyTargetEnergyDepositionCount = inputStream.read_uint16()
+        self.beamAntennaPatterns = []
         for _ in range(0, beamAntennaPatternCount):
             record = BeamAntennaPattern()
             record.parse(inputStream)
             self.beamAntennaPatterns.append(record)
+        self.directedEnergyTargetEnergyDepositions = []
         for _ in range(0, directedEnergyTargetEnergyDepositionCount):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
-- 
2.43.0


From 2438e6f4b847c9e4916ea13a26df1203e815974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 38/39] fix: BlankingSector record type and padding are
 unsigned

Values with the top bit set were refused or came back negative.
---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 16caeb6..7f02b04 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2287,7 +2287,7 @@ class BlankingSector:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_int(self.recordType)
+        outputStream.write_unsigned_int(self.recordType)
         outputStream.write_unsigned_short(self.recordLength)
         outputStream.write_unsigned_short(self.padding)
         outputStream.write_unsigned_byte(self.emitterNumber)
@@ -2299,13 +2299,13 @@ class BlankingSector:
         outputStream.write_float(self.lowerElevation)
         outputStream.write_float(self.upperElevation)
         outputStream.write_float(self.residualPower)
-        outputStream.write_int(self.padding3)
-        outputStream.write_int(self.padding4)
+        outputStream.write_unsigned_int(self.padding3)
+        outputStream.write_unsigned_int(self.padding4)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
 
-        self.recordType = inputStream.read_int()  # TODO: validate
+        self.recordType = inputStream.read_unsigned_int()  # TODO: validate
         self.recordLength = inputStream.read_unsigned_short()  # TODO: validate
         self.padding = inputStream.read_unsigned_short()
         self.emitterNumber = inputStream.read_unsigned_byte()
@@ -2317,8 +2317,8 @@ class BlankingSector:
         self.lowerElevation = inputStream.read_float()
         self.upperElevation = inputStream.read_float()
         self.residualPower = inputStream.read_float()
-        self.padding3 = inputStream.read_int()
-        self.padding4 = inputStream.read_int()
+        self.padding3 = inputStream.read_unsigned_int()
+        self.padding4 = inputStream.read_unsigned_int()
 
 
 class LaunchedMunitionRecord:
-- 
2.43.0


From 6df412f37e07a687e28f8026197032c888a0ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 39/39] fix: rotate_3x3 takes the 3x1 axis its documentation
 shows

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index e11e564..098f0c7 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -521,6 +521,9 @@ class GPS:
               the rotation.
         """
 
+        # a 3x1 matrix, as in the example, or a plain vector of 3
+        normal_vec = array(normal_vec).reshape(3)
+
         n_x = array([[      0  , -normal_vec[2], normal_vec[1] ],
                      [normal_vec[2] ,       0  , -normal_vec[0]],
                      [-normal_vec[1], normal_vec[0] ,   0      ]
-- 
2.43.0

