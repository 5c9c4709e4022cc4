From b7216f73eb2e9693cefda041e237d0bf15f107e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:52 +0000
Subject: [PATCH 01/35] fix: read columns from the stripped line, not the
 indented one

validate() accepts a record with surrounding whitespace but read() sliced the
unstripped line, so a leading space shifted every column (wrong section, wrong
fields, wrong cycle date).
---
 src/arinc424/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..80637c2 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -121,7 +121,8 @@ class Record():
       return False
 
     # remove any surrounding whitespace
-    self.raw = line.strip()
+    line = line.strip()
+    self.raw = line
 
     identifier_1 = line[4:6]
     identifier_2 = line[4] + line[12]
-- 
2.43.0


From 7e7f1faf49b033d7051148063d90350e7706d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:52 +0000
Subject: [PATCH 02/35] fix: take the subsection from column 13 only for
 airport and heliport records

Only sections P and H (blank column 6) carry their subsection in column 13.
Any other unsupported section used to be matched on whatever stood there, e.g.
an RNAV name table (TN) record with a C in column 13 read as a cruising table.
---
 src/arinc424/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 80637c2..65e4640 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -129,7 +129,7 @@ class Record():
 
     if identifier_1 in records:
       self.ident = identifier_1
-    elif identifier_2 in records:
+    elif identifier_1 in ('P ', 'H ') and identifier_2 in records:
       self.ident = identifier_2
     else:
       return False
-- 
2.43.0


From a87e8d132cc77f934a7821a096e65c519cf55674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 03/35] fix: do not leave a half-updated record behind a
 rejected or repeated read

read() overwrote raw/ident/definition/continuation before it knew whether the
line was acceptable, so a rejected line changed what primary(), hasCont() and
decode() said about the previously read record, and a record type without a
continuation column kept the previous record's continuation number.
---
 src/arinc424/record.py | 44 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 65e4640..261270e 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -122,46 +122,54 @@ class Record():
 
     # remove any surrounding whitespace
     line = line.strip()
-    self.raw = line
 
     identifier_1 = line[4:6]
     identifier_2 = line[4] + line[12]
 
     if identifier_1 in records:
-      self.ident = identifier_1
+      ident = identifier_1
     elif identifier_1 in ('P ', 'H ') and identifier_2 in records:
-      self.ident = identifier_2
+      ident = identifier_2
     else:
       return False
 
-    self.definition = records[self.ident]
+    definition = records[ident]
+    continuation = ''
+    primary = False
 
     # validate the continuation record number
-    if hasattr(self.definition, 'cont_idx'):
-      self.continuation = self.raw[self.definition.cont_idx]
-      if self.continuation.isalnum() == False:
-        print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
+    if hasattr(definition, 'cont_idx'):
+      continuation = line[definition.cont_idx]
+      if continuation.isalnum() == False:
+        print(f'Unsupported {definition.name} Continuation Record Number: "{continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
-        print(f'Record: {self.raw}')
+        print(f'Record: {line}')
         return False
+      primary = continuation == '0' or continuation == '1'
 
       # validate the continuation record type
-      if self.primary() is False:
-        if hasattr(self.definition, 'app_idx'):
-          application_type = self.definition.application_type(self.raw)
-          if (application_type not in self.definition.continuations) and not 'J':
-            print(f'Unsupported {self.definition.name} Application Type: "{application_type}"')
-            print(f'Supported application types for {self.definition.name} are: {self.definition.continuations}')
-            print(f'Record: {self.raw}')
+      if primary is False:
+        if hasattr(definition, 'app_idx'):
+          application_type = definition.application_type(line)
+          if (application_type not in definition.continuations) and not 'J':
+            print(f'Unsupported {definition.name} Application Type: "{application_type}"')
+            print(f'Supported application types for {definition.name} are: {definition.continuations}')
+            print(f'Record: {line}')
             return False
         else:
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
-    if not self.fields:
+    fields = definition.read(line, primary)
+    if not fields:
       return False
 
+    # the record is only updated once the whole line has been accepted
+    self.raw = line
+    self.ident = ident
+    self.definition = definition
+    self.continuation = continuation
+    self.fields = fields
     return True
 
   def decode(self, output=True):
-- 
2.43.0


From e46acecbfd33f6b9ff4a32c6e13d354d273547e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 04/35] fix: a record type that has no continuation records is
 always primary

primary() answered False for grid MORA, cruising table, company route and
alternate records because they have no continuation record number.
---
 src/arinc424/record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 261270e..8edd4c1 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -98,7 +98,7 @@ class Record():
   def primary(self):
     if self.definition == -1:
       return False
-    return self.continuation == '0' or self.continuation == '1'
+    return self.continuation in ('', '0', '1')
 
   def hasCont(self):
     if self.primary() is False:
@@ -135,7 +135,7 @@ class Record():
 
     definition = records[ident]
     continuation = ''
-    primary = False
+    primary = True
 
     # validate the continuation record number
     if hasattr(definition, 'cont_idx'):
-- 
2.43.0


From d17d99d3e911d0e103844d397b3cf2898c1ab5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 05/35] fix: read enroute airways restriction primaries as
 primaries

The EU definition had no continuation column, so every EU record was read with
the continuation layout (dropping the fixes and the dates of a primary record)
and a seasonal closure (SC) raised.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..6682332 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 15
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
-- 
2.43.0


From 804af81dd3df3ccfec273c5f05b634db431477a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 06/35] fix: reject an unknown application type instead of
 raising

Enroute airways, restrictions and communications, heliport communications and
path points raised ValueError out of read()/parse() on a continuation record
whose application type they do not support; every other record type rejects
such a record, and a single one aborted read_file() and search().
---
 src/arinc424/definitions/EnrouteAirways.py            | 2 +-
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 4 ++--
 src/arinc424/definitions/EnrouteCommunications.py     | 2 +-
 src/arinc424/definitions/HeliportCommunications.py    | 2 +-
 src/arinc424/definitions/PathPoint.py                 | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 6682332..2b3b523 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -28,7 +28,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -38,7 +38,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From e84ae9fc3a367180b52793b9b3ef9417adb00c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:47 +0000
Subject: [PATCH 07/35] fix: read_folder() skips subdirectories instead of
 crashing on them

---
 src/arinc424/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 9f9395b..3503b88 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -51,4 +51,6 @@ def read_folder(path):
   Parse all ARINC-424 records for every file in a given folder.
   """
   for file in os.scandir(path):
+    if not file.is_file():
+      continue
     read_file(os.path.join(path, file.name))
-- 
2.43.0


From b392cf1da5761e19991700efaba61fe553fb4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:47 +0000
Subject: [PATCH 08/35] fix: a malformed VOR/NDB frequency must not terminate
 the process

field_034 called exit(); report it with ValueError like the other decoders.
---
 src/arinc424/decoder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..981bcf8 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -492,9 +492,7 @@ def field_034(value, record):
   value = value.strip()
   if len(value) > 0:
     if value.isnumeric() is False:
-      print(f'Unsupported VOR/NDB Frequency: "{value}"')
-      print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError("Invalid VOR/NDB Frequency:", value)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From c93206a5acc2330ead1bc5439e6bb456af6f29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:47 +0000
Subject: [PATCH 09/35] fix: show an all-zero altitude or length as 0 ft

Stripping the leading zeros of 00000 left nothing but ' ft' (and '00 ft' for a
longest runway of 000).
---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 981bcf8..5018877 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -463,12 +463,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -649,7 +649,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -668,7 +668,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -683,13 +683,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return str(int(value) * 100) + " ft"
   else:
     return value
 
@@ -801,7 +801,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -879,7 +879,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -937,7 +937,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1217,7 +1217,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1237,7 +1237,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1340,7 +1340,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1410,7 +1410,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1561,7 +1561,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1734,7 +1734,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1889,7 +1889,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 7635aa5031e81b1f2d74d4c27ebe7abe7734743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:47 +0000
Subject: [PATCH 10/35] fix: decode a blank leg time and any SID/STAR
 identifier to itself, not None

The table showed the word None where the record has a blank or a name with a
character other than a letter or digit.
---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 5018877..4710523 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -204,8 +204,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -750,7 +749,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0


From 0c8500510e641b20671984f83765dbde9e06eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:17 +0000
Subject: [PATCH 11/35] fix: decode every time zone letter, not only N to Y

A..M and Z came out shifted by one zone and with a doubled sign (A00 was
'GMT --12:00', Z00 'GMT +13:00'), a lower case letter raised.
---
 src/arinc424/decoder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 4710523..db11f94 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1,6 +1,5 @@
 from collections import defaultdict
 import io
-import string
 
 
 class Field():
@@ -1509,11 +1508,14 @@ def field_177(value, record):
 # 5.178 Time Zone
 def field_178(value, record):
   if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
-    return y + ':' + str(value[1:])
-  else:
-    return f'Unsupported Value: "{value}"'
+    # Z is GMT, A to M (without J) are 1 to 12 hours east of it and N to Y 1 to 12 hours west
+    x = 'ZNOPQRSTUVWXY'.find(value[0])
+    if x >= 0:
+      return 'GMT +' + str(x) + ':' + str(value[1:])
+    x = 'ABCDEFGHIKLM'.find(value[0])
+    if x >= 0:
+      return 'GMT -' + str(x + 1) + ':' + str(value[1:])
+  return f'Unsupported Value: "{value}"'
 
 
 # 5.179 Daylight Time Indicator (DAY TIME)
-- 
2.43.0


From 3369060cb624978110c75c1c0165c9b78fd3e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:17 +0000
Subject: [PATCH 12/35] fix: a blank route identifier is not an error

A geographical reference table record has six route identifier fields of which
the unused ones are blank; decoding any record with fewer than six raised.
---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index db11f94..ff0e7e1 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -195,7 +195,7 @@ def field_007(value, record):
 
 # 5.8 Route Identifier (ROUTE IDENT)
 def field_008(value, record):
-  if value.strip().isalnum():
+  if value.strip() == '' or value.strip().isalnum():
     return value
   else:
     raise ValueError("Route Identifier not alphanumeric", value)
-- 
2.43.0


From 8177cadea8d6f91eb1ddf0001f49be5897890529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:39 +0000
Subject: [PATCH 13/35] fix: sector altitudes are coded in hundreds of feet

An MSA or TAA sector altitude of 062 is 6200 ft; the table said 62 ft.
---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index ff0e7e1..996d73d 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1338,7 +1338,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return str(int(value) * 100) + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
-- 
2.43.0


From 32dcc77bde4a1de1b2eb1f939c9c8bede18400f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:39 +0000
Subject: [PATCH 14/35] fix: NDB and locator frequencies are coded in tenths of
 a kilohertz

An NDB frequency of 02240 is 224.0 kHz; the table said 22.40.
---
 src/arinc424/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 996d73d..705f375 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -491,6 +491,9 @@ def field_034(value, record):
   if len(value) > 0:
     if value.isnumeric() is False:
       raise ValueError("Invalid VOR/NDB Frequency:", value)
+    elif record.ident in ('DB', 'PN', 'PM'):
+      # NDBs and locators are coded in tenths of a kilohertz
+      return "{:.1f}".format(float(value)/10)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From 9db359de9fcee0570af26c4dad7782bd082e1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 15/35] fix: navaid flight planning continuations dropped the
 first UIR character

The UIR identifier is four characters (28-31) and the start/end indicator is
column 32; the indicator showed the first character of the date instead.
---
 src/arinc424/definitions/NDBNavaid.py | 4 ++--
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..ec30d70 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..3fcabd1 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
-- 
2.43.0


From e2ae91ffafa76863c4f56f0b771405ad44abd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 16/35] fix: the navaid class is five characters (28-32)

Power/range, additional information and collocation were cut off.
---
 src/arinc424/definitions/NDBNavaid.py | 4 ++--
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index ec30d70..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 3fcabd1..de67584 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -139,7 +139,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
-- 
2.43.0


From 92b91efb9e98a4207c13bff7a943696048acb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 17/35] fix: columns of the last two VHF navaid limitation
 groups

Every group is sector(2) distance description(1) distance(6) altitude
description(1) altitude(6); the fourth distance lost its first character and
the fifth altitude description read the first character of the altitude.
---
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index de67584..f5b006a 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From 26aa46f9c2a86347551a68b50d55c16b2d3c27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 18/35] fix: holding pattern continuation shows its application
 type, not the first note character

---
 src/arinc424/definitions/HoldingPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From b66f9e0ddd802dedf85bbb26c6caef0d0a4ff152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 19/35] fix: restrictive airspace time indicator is column 29,
 not the NOTAM column

---
 src/arinc424/definitions/RestrictiveAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..1c8da2f 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
-- 
2.43.0


From 582adcb914263631bf22f48c21db6225d631ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 20/35] fix: runway and localizer note continuations lacked
 their application type

---
 src/arinc424/definitions/LocalizerGlideslope.py | 1 +
 src/arinc424/definitions/Runway.py              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/LocalizerGlideslope.py b/src/arinc424/definitions/LocalizerGlideslope.py
index 6e8f6b8..f7f29c2 100644
--- a/src/arinc424/definitions/LocalizerGlideslope.py
+++ b/src/arinc424/definitions/LocalizerGlideslope.py
@@ -71,6 +71,7 @@ class LocalizerGlideslope():
       Field("Localizer Identifier",                       r[13:17],       decoder.field_044),
       Field("ILS Category",                               r[17],          decoder.field_080),
       Field("Continuation Record No",                     r[21],          decoder.field_016),
+      Field("Application Type",                           r[22],          decoder.field_091),
       Field("Notes",                                      r[23:92],       decoder.field_061),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
diff --git a/src/arinc424/definitions/Runway.py b/src/arinc424/definitions/Runway.py
index 01f3e95..41845b3 100644
--- a/src/arinc424/definitions/Runway.py
+++ b/src/arinc424/definitions/Runway.py
@@ -66,6 +66,7 @@ class Runway():
       Field("ICAO Code",                              r[10:12],       decoder.field_014),
       Field("Runway Identifier",                      r[13:18],       decoder.field_046),
       Field("Continuation Record No",                 r[21],          decoder.field_016),
+      Field("Application Type",                       r[22],          decoder.field_091),
       Field("Notes",                                  r[23:92],       decoder.field_061),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
-- 
2.43.0


From 0c7d6bc935e90bfaf7496757e4f9b98f5ad11a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 21/35] fix: restrictive airspace lower limit lost its first
 character

It is five characters (82-86): '03000' was shown as '3000', 'FL180' as 'L180'.
---
 src/arinc424/definitions/RestrictiveAirspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index 1c8da2f..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
-- 
2.43.0


From f9dcb3a1676eeb3920891d27ee1f856a4888f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 22/35] fix: controlled airspace type is column 9, not the
 first character of the center

---
 src/arinc424/definitions/ControlledAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
-- 
2.43.0


From 8371088abde67ce41bd000db2bd2d5163aa93755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 23/35] fix: GLS continuation record number is column 22

The record was dispatched on column 22 but showed the blank columns 19-21.
---
 src/arinc424/definitions/GLS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From 015aa677d6da5a82f257057d277dac611b25be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 24/35] fix: the MSA center fix is five characters (14-18)

---
 src/arinc424/definitions/MSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/MSA.py b/src/arinc424/definitions/MSA.py
index 35f1c92..052652d 100644
--- a/src/arinc424/definitions/MSA.py
+++ b/src/arinc424/definitions/MSA.py
@@ -38,7 +38,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
@@ -76,7 +76,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
-- 
2.43.0


From 12dc7cc60f358ffaed4b93e96fc889b8c2a41536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 25/35] fix: the MLS back azimuth true bearing is five
 characters (96-100)

---
 src/arinc424/definitions/MLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
-- 
2.43.0


From 01cf4ec418a52feb9a3c0d5d574ac171bff52b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 26/35] fix: the center fix ICAO code of a procedure leg is two
 characters (113-114)

---
 src/arinc424/definitions/SIDSTARApproach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..66a5a47 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
-- 
2.43.0


From 26d8c048bead6065eb54d03f0665195a73f8386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 27/35] fix: the start/end date of a procedure flight planning
 continuation is 11 characters (42-52)

---
 src/arinc424/definitions/SIDSTARApproach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index 66a5a47..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
-- 
2.43.0


From c8f1f6de481c23dca88c4f3ec0bf406656c0818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 28/35] fix: columns of the airways note restriction records

The route identifier (7-11) lost its first character and the start fix
section code (26-27) its subsection; the other restriction records are right.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 2b3b523..36c7233 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
-- 
2.43.0


From 2aeb4b8a66d9f4ebf4fc5663b7a42e4d96baa0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 29/35] fix: TAA continuations use the columns they are
 dispatched on

The continuation number and application type are taken from columns 30 and 31,
as on the primary record, but the continuation layout was the superseded one
(number in column 39, a second ICAO code copied from the airport's).
---
 src/arinc424/definitions/TAA.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/TAA.py b/src/arinc424/definitions/TAA.py
index 29fec38..cabfe00 100644
--- a/src/arinc424/definitions/TAA.py
+++ b/src/arinc424/definitions/TAA.py
@@ -81,14 +81,13 @@ class TAA():
       Field(self.id_name,                         r[6:10],        decoder.field_006),
       Field("ICAO Code",                          r[10:12],       decoder.field_014),
       Field("Approach Identifier",                r[13:19],       decoder.field_010),
-      Field("TAA Sector Identifier",              r[19],          decoder.field_272),
-      Field("TAA Procedure Turn",                 r[20:24],       decoder.field_271),
-      Field("TAA IAF Waypoint",                   r[29:34],       decoder.field_273),
-      Field("ICAO Code (2)",                      r[10:12],       decoder.field_014),
-      Field("Section Code (2)",                   r[36:38],       decoder.field_004),
-      Field("Continuation Record No",             r[38],          decoder.field_016),
-      Field("Application Notes",                  r[39],          decoder.field_091),
-      Field("Notes",                              r[50:109],      decoder.field_061),
+      Field("TAA Waypoint",                       r[19:24],       decoder.field_273),
+      Field("ICAO Code (2)",                      r[24:26],       decoder.field_014),
+      Field("Section Code (2)",                   r[26:28],       decoder.field_004),
+      Field("TAA Fix Position Indicator",         r[28],          decoder.field_272),
+      Field("Continuation Record No",             r[29],          decoder.field_016),
+      Field("Application Type",                   r[30],          decoder.field_091),
+      Field("Notes",                              r[31:100],      decoder.field_061),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 4fcd5506b210bb1e2349a7f731abed239bfb5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 30/35] fix: restrictive airspace groups of the airways flight
 planning continuation

Groups 2 to 4 decoded the airspace type as a sequence number and the fourth
group lacked its multiple code (column 122).
---
 src/arinc424/definitions/EnrouteAirways.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..a02aae4 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,16 +102,17 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
+      Field("Restr. Air Multiple Code (4)",            r[121],        decoder.field_130),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
-- 
2.43.0


From 642cd0e2b3cc5047eb800e51f3aafe0c2c6fd1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 31/35] fix: company routes were decoded with the columns of
 another record

From 'To Fix' on every field used a decoder pasted from the airspace records
(the ICAO code was decoded as a boundary via code), the 'airspace center'
overlapped the from-fix, section code (4) lost its subsection and three fields
were called 'ICAO Code', of which the JSON kept one.
---
 src/arinc424/definitions/CompanyRoute.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..692511d 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
@@ -26,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("RUnway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From b662341351b468e9386e2a49a33d60b43c46f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 32/35] fix: read all four intermediate fixes of a flight
 planning continuation

The continuation holds four groups of fix(5) ICAO(2) section(2) distance(3)
transition code(1) from column 72; the layout mixed columns of different groups
into two, and the JSON kept only one of each pair of equally named fields.
---
 src/arinc424/definitions/FlightPlanning.py | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..7cec346 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -102,14 +102,24 @@ class FlightPlanning():
       Field("Application Type",                       r[70],          decoder.field_091),
       Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
       Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Section Code (5)",                       r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                  r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",            r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",        r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                          r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                       r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",              r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",        r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",        r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                          r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                       r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",              r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",        r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",        r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                          r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                       r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",              r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",        r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From 6969caeda6aaa897dabc4f67df72ca5ed577e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 33/35] fix: give every field of a record its own name

Airways restriction, preferred route, alternate and geographical reference
records repeated field names; json() keys by name and so dropped all but the
last of each.
---
 src/arinc424/definitions/Alternate.py         | 12 ++++----
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 src/arinc424/definitions/GeoReferenceTable.py |  8 ++---
 src/arinc424/definitions/PreferredRoute.py    |  8 ++---
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..49e2eb3 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
       Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 36c7233..2f0ac52 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From 16dc82165c9537eea8fd18eec7b161a410e47dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:54 +0000
Subject: [PATCH 34/35] fix: the reporting units of altitude (5.123) are a
 code, not a height in feet

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 705f375..6c5d8e0 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1218,7 +1218,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
-- 
2.43.0


From 4f2f9d0be98aa0b98e1d1ab6e9d3282a11efa4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:25 +0000
Subject: [PATCH 35/35] fix: search by a tuple or set of substrings, not only
 by a list

---
 src/arinc424/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 3503b88..9075cc0 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -29,7 +29,7 @@ def search(file, filters):
       if isinstance(filters, str):
         if filters not in r.raw:
           continue
-      elif isinstance(filters, list):
+      elif isinstance(filters, (list, tuple, set, frozenset)):
         if all(map(r.raw.__contains__, filters)) is False:
           continue
       print(r.raw)
-- 
2.43.0

