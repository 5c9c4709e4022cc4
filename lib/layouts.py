"""Reference layouts: what every record type reports, column by column.

This table is the specification side of the checks.  It is data kept in /verif,
never read from the code under test.  Columns are 0-based half-open ranges of
the 132-character record; "4:5+12:13" is the concatenation of two ranges.  The
last item is the paragraph of ARINC 424 chapter 5 that defines the field.
"""

TEXT = {
  'AS.P': """
Record Type | 0:1 | 002
Section Code | 4:6 | 004
Starting Latitude | 13:16 | 141
Starting Longitude | 16:20 | 142
MORA | 30:33 | 143
MORA (2) | 33:36 | 143
MORA (3) | 36:39 | 143
MORA (4) | 39:42 | 143
MORA (5) | 42:45 | 143
MORA (6) | 45:48 | 143
MORA (7) | 48:51 | 143
MORA (8) | 51:54 | 143
MORA (9) | 54:57 | 143
MORA (10) | 57:60 | 143
MORA (11) | 60:63 | 143
MORA (12) | 63:66 | 143
MORA (13) | 66:69 | 143
MORA (14) | 69:72 | 143
MORA (15) | 72:75 | 143
MORA (16) | 75:78 | 143
MORA (17) | 78:81 | 143
MORA (18) | 81:84 | 143
MORA (19) | 84:87 | 143
MORA (21) | 87:90 | 143
MORA (22) | 90:93 | 143
MORA (23) | 93:96 | 143
MORA (24) | 96:99 | 143
MORA (25) | 99:102 | 143
MORA (26) | 102:105 | 143
MORA (27) | 105:108 | 143
MORA (28) | 108:111 | 143
MORA (29) | 111:114 | 143
MORA (30) | 114:117 | 143
MORA (31) | 117:120 | 143
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'D.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
VOR Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Frequency | 22:27 | 034
Class | 27:32 | 035
VOR Latitude | 32:41 | 036
VOR Longitude | 41:51 | 037
DME Ident | 51:55 | 038
DME Latitude | 55:64 | 036
DME Longitude | 64:74 | 037
Station Declination | 74:79 | 066
DME Elevation | 79:84 | 040
Figure of Merit | 84:85 | 149
ILS/DME Bias | 85:87 | 090
Frequency Protection | 87:90 | 150
Datum Code | 90:93 | 197
VOR Name | 93:123 | 071
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'D.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
VOR Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'D.CL': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
VOR Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Navaid Limitation Code | 23:24 | 205
Component Affected Indicator | 24:25 | 206
Sequence Number | 25:27 | 012
Sector From/Sector To | 27:29 | 207
Distance Description | 29:30 | 187
Distance Limitation | 30:36 | 208
Altitude Description | 36:37 | 029
Altitude Limitation | 37:43 | 029
Sector From/Sector To (2) | 43:45 | 207
Distance Description (2) | 45:46 | 187
Distance Limitation (2) | 46:52 | 208
Altitude Description (2) | 52:53 | 029
Altitude Limitation (2) | 53:59 | 209
Sector From/Sector To (3) | 59:61 | 207
Distance Description (3) | 61:62 | 187
Distance Limitation (3) | 62:68 | 208
Altitude Description (3) | 68:69 | 029
Altitude Limitation (3) | 69:75 | 209
Sector From/Sector To (4) | 75:77 | 207
Distance Description (4) | 77:78 | 187
Distance Limitation (4) | 78:84 | 208
Altitude Description (4) | 84:85 | 029
Altitude Limitation (4) | 85:91 | 209
Sector From/Sector To (5) | 91:93 | 207
Distance Description (5) | 93:94 | 187
Distance Limitation (5) | 94:100 | 208
Altitude Description (5) | 100:101 | 029
Altitude Limitation (5) | 101:107 | 209
Sequence End Indicator | 107:108 | 210
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'D.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
VOR Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date | 32:43 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'D.CS': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
VOR Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Facility Characteristics | 27:32 | 093
Magnetic Variation | 74:79 | 039
Facility Elevation | 79:84 | 092
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'DB.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
NDB Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
NDB Frequency | 22:27 | 034
NDB Class | 27:32 | 035
NDB Latitude | 32:41 | 036
NDB Longitude | 41:51 | 037
Magnetic Variation | 74:79 | 039
Datum Code | 90:93 | 197
NDB Name | 93:123 | 071
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'DB.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
NDB Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'DB.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
NDB Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date | 32:43 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'DB.CS': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
NDB Identifier | 13:17 | 033
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Facility Characteristics | 27:32 | 093
Facility Elevation | 79:84 | 092
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EA.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Waypoint Type | 26:29 | 042
Waypoint Usage | 29:31 | 082
Waypoint Latitude | 32:41 | 036
Waypoint Longitude | 41:51 | 037
Dynamic Mag. Variation | 74:79 | 039
Datum Code | 84:87 | 197
Name Format Indicator | 95:98 | 196
Waypoint Name / Desc | 98:123 | 043
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EA.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:123 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EA.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date | 32:43 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EM.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Marker Identifier | 13:17 | 110
ICAO Code | 19:21 | 014
Continuation Record No | 21:22 | 016
Marker Code | 22:26 | 111
Marker Shape | 27:28 | 112
Marker Power | 28:29 | 113
Marker Latitude | 32:41 | 036
Marker Longitude | 41:51 | 037
Minor Axis | 51:55 | 100
Magnetic Variation | 74:79 | 039
Facility Elevation | 79:84 | 092
Datum Code | 84:87 | 197
Marker Name | 93:123 | 071
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EM.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Marker Identifier | 13:17 | 110
ICAO Code | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EP.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Duplicate Identifier | 27:29 | 114
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Inbound Holding Course | 39:43 | 062
Turn Direction | 43:44 | 063
Leg Length | 44:47 | 064
Leg Time | 47:49 | 065
Minimum Altitude | 49:54 | 030
Maximum Altitude | 54:59 | 127
Holding Speed | 59:62 | 175
RNP | 62:65 | 211
Arc Radius | 65:71 | 204
Name | 98:123 | 060
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EP.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Duplicate Identifier | 27:29 | 114
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Notes | 40:109 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ER.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:18 | 008
Sequence Number | 25:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Waypoint Desc Code | 39:43 | 017
Boundary Code | 43:44 | 018
Route Type | 44:45 | 007
Level | 45:46 | 019
Direction Restriction | 46:47 | 115
Cruise Table Indicator | 47:49 | 134
EU Indicator | 49:50 | 164
Recommended NAVAID | 50:54 | 023
ICAO Code (2) | 54:56 | 014
RNP | 56:59 | 211
Theta | 62:66 | 024
Rho | 66:70 | 025
Outbound Magnetic Course | 70:74 | 026
Route Distance From | 74:78 | 027
Inbound Magnetic Course | 78:82 | 028
Minimum Altitude | 83:88 | 030
Minimum Altitude (2) | 88:93 | 030
Maximum Altitude | 93:98 | 127
Fix Radius Transition Indicator | 98:101 | 254
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ER.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:18 | 008
Sequence Number | 25:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Notes | 40:109 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ER.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:18 | 008
Sequence Number | 25:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Start/End Indicator | 40:41 | 152
Start/End Date | 41:52 | 153
Restr. Air ICAO Code | 66:68 | 014
Restr. Air Type | 68:69 | 128
Restr. Air Designation | 69:79 | 129
Restr. Air Multiple Code | 79:80 | 130
Restr. Air ICAO Code (2) | 80:82 | 014
Restr. Air Type (2) | 82:83 | 128
Restr. Air Designation (2) | 83:93 | 129
Restr. Air Multiple Code (2) | 93:94 | 130
Restr. Air ICAO Code (3) | 94:96 | 014
Restr. Air Type (3) | 96:97 | 128
Restr. Air Designation (3) | 97:107 | 129
Restr. Air Multiple Code (3) | 107:108 | 130
Restr. Air ICAO Code (4) | 108:110 | 014
Restr. Air Type (4) | 110:111 | 128
Restr. Air Designation (4) | 111:121 | 129
Restr. Air Multiple Code (4) | 121:122 | 130
Restr. Air Link Continuation | 122:123 | 174
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ET.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:23 | 008
Preferred Route Use Ind | 23:25 | 220
Sequence Number | 25:29 | 012
Continuation Record No | 38:39 | 016
To Fix Identifier | 39:44 | 083
ICAO Code | 44:46 | 014
Section Code (2) | 46:48 | 004
VIA Code | 48:51 | 077
SID/STAR/AWY Ident | 51:57 | 078
AREA Code | 57:60 | 003
Level | 60:61 | 019
Route Type | 61:62 | 007
Initial Airport/Fix | 62:67 | 194
ICAO Code (2) | 67:69 | 014
Section Code (3) | 69:71 | 004
Terminus Airport/Fix | 71:76 | 194
ICAO Code (3) | 76:78 | 014
Section Code (4) | 78:80 | 004
Minimum Altitude | 80:85 | 030
Maximum Altitude | 85:90 | 127
Time Code | 90:91 | 131
Aircraft Use Group | 91:93 | 221
Direction Restriction | 93:94 | 115
Altitude Description | 94:95 | 029
Altitude One | 95:100 | 030
Altitude Two | 100:105 | 030
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ET.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:23 | 008
Preferred Route Use Ind | 23:25 | 220
Sequence Number | 25:29 | 012
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Notes | 40:109 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'ET.CT': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 13:23 | 008
Preferred Route Use Ind | 23:25 | 220
Sequence Number | 25:29 | 012
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Time Code | 40:41 | 131
Time Indicator | 41:42 | 138
Time of Operation | 42:52 | 195
Time of Operation (2) | 52:62 | 195
Time of Operation (3) | 62:72 | 195
Time of Operation (4) | 72:82 | 195
Time of Operation (5) | 82:92 | 195
Time of Operation (6) | 92:102 | 195
Time of Operation (7) | 102:112 | 195
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.PAE': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Start Fix Identifier | 18:23 | 013
Start Fix ICAO Code | 23:25 | 014
Start Fix Section Code | 25:27 | 004
End Fix Identifier | 27:32 | 013
End Fix ICAO Code | 32:34 | 014
End Fix Section Code | 34:36 | 004
Start Date | 37:44 | 157
End Date | 44:51 | 157
Time Code | 51:52 | 131
Time Indicator | 52:53 | 138
Time of Operation | 53:63 | 195
Time of Operation (2) | 63:73 | 195
Time of Operation (3) | 73:83 | 195
Time of Operation (4) | 83:93 | 195
Exclusion Indicator | 93:94 | 202
Units of Altitude | 94:95 | 160
Restriction Altitude | 95:98 | 161
Block Indicator | 98:99 | 203
Restriction Altitude (2) | 99:102 | 161
Block Indicator (2) | 102:103 | 203
Restriction Altitude (3) | 103:106 | 161
Block Indicator (3) | 106:107 | 203
Restriction Altitude (4) | 107:110 | 161
Block Indicator (4) | 110:111 | 203
Restriction Altitude (5) | 111:114 | 161
Block Indicator (5) | 114:115 | 203
Restriction Altitude (6) | 115:118 | 161
Block Indicator (6) | 118:119 | 203
Restriction Altitude (7) | 119:122 | 161
Block Indicator (7) | 122:123 | 203
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.PTC': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Start Fix Identifier | 18:23 | 013
Start Fix ICAO Code | 23:25 | 014
Start Fix Section Code | 25:27 | 004
End Fix Identifier | 27:32 | 013
End Fix ICAO Code | 32:34 | 014
End Fix Section Code | 34:36 | 004
Start Date | 37:44 | 157
End Date | 44:51 | 157
Time Code | 51:52 | 131
Time Indicator | 52:53 | 138
Time of Operation | 53:63 | 195
Time of Operation (2) | 63:73 | 195
Time of Operation (3) | 73:83 | 195
Time of Operation (4) | 83:93 | 195
Cruise Table Ident | 93:95 | 134
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.PNR': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Start Fix Identifier | 18:23 | 013
Start Fix ICAO Code | 23:25 | 014
Start Fix Section Code | 25:27 | 004
End Fix Identifier | 27:32 | 013
End Fix ICAO Code | 32:34 | 014
End Fix Section Code | 34:36 | 004
Start Date | 37:44 | 157
End Date | 44:51 | 157
Restriction Notes | 51:120 | 163
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.CAE': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Application Type | 18:19 | 091
Time Code | 51:52 | 131
Time Indicator | 52:53 | 138
Time of Operation | 53:63 | 195
Time of Operation (2) | 63:73 | 195
Time of Operation (3) | 73:83 | 195
Time of Operation (4) | 83:93 | 195
Exclusion Operator | 93:94 | 202
Units of Altitude | 94:95 | 160
Restriction Altitude | 95:98 | 161
Block Indicator | 98:99 | 203
Restriction Altitude (2) | 99:102 | 161
Block Indicator (2) | 102:103 | 203
Restriction Altitude (3) | 103:106 | 161
Block Indicator (3) | 106:107 | 203
Restriction Altitude (4) | 107:110 | 161
Block Indicator (4) | 110:111 | 203
Restriction Altitude (5) | 111:114 | 161
Block Indicator (5) | 114:115 | 203
Restriction Altitude (6) | 115:118 | 161
Block Indicator (6) | 118:119 | 203
Restriction Altitude (7) | 119:122 | 161
Block Indicator (7) | 122:123 | 203
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.CTC': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Application Type | 18:19 | 091
Time Code | 51:52 | 131
Time Indicator | 52:53 | 138
Time of Operation | 53:63 | 195
Time of Operation (2) | 63:73 | 195
Time of Operation (3) | 73:83 | 195
Time of Operation (4) | 83:93 | 195
Cruise Table Ident | 93:95 | 134
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EU.CNR': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Route Identifier | 6:11 | 008
Restriction Identifier | 12:15 | 154
Restriction Type | 15:17 | 201
Continuation Record No | 17:18 | 016
Application Type | 18:19 | 091
Restriction Notes | 51:120 | 163
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EV.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
FIR/RDO Ident | 6:10 | 190
FIR/UIR Address | 10:14 | 151
Indicator | 14:15 | 117
Remote Name | 18:43 | 189
Communications Type | 43:46 | 101
Comm Frequency | 46:53 | 103
Guard/Transmit | 53:54 | 182
Frequency Units | 54:55 | 104
Continuation Record No | 55:56 | 016
Service Indicator | 56:59 | 106
Radar Service | 59:60 | 102
Modulation | 60:61 | 198
Signal Emission | 61:62 | 199
Latitude | 62:71 | 036
Longitude | 71:81 | 037
Magnetic Variation | 81:86 | 039
Facility Elevation | 86:91 | 092
H24 Indicator | 91:92 | 181
Altitude Description | 92:93 | 029
Communication Altitude | 93:98 | 184
Communication Altitude (2) | 98:103 | 184
Remote Facility | 103:107 | 200
ICAO Code | 107:109 | 014
Section Code (2) | 109:111 | 004
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EV.C ': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
FIR/RDO Ident | 6:10 | 190
FIR/UIR Address | 10:14 | 151
Indicator | 14:15 | 117
Remote Name | 18:43 | 189
Communications Type | 43:46 | 101
Comm Frequency | 46:53 | 103
Guard/Transmit | 53:54 | 182
Frequency Units | 54:55 | 104
Continuation Record No | 55:56 | 016
Application Type | 56:57 | 091
Time Code | 57:58 | 131
NOTAM | 58:59 | 132
Time Indicator | 59:60 | 138
Time of Operation | 60:70 | 195
Call Sign | 93:123 | 105
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'EV.CT': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
FIR/RDO Ident | 6:10 | 190
FIR/UIR Address | 10:14 | 151
Indicator | 14:15 | 117
Remote Name | 18:43 | 189
Communications Type | 43:46 | 101
Comm Frequency | 46:53 | 103
Guard/Transmit | 53:54 | 182
Frequency Units | 54:55 | 104
Continuation Record No | 55:56 | 016
Application Type | 56:57 | 091
Time of Operation | 60:70 | 195
Time of Operation (2) | 70:80 | 195
Time of Operation (3) | 80:90 | 195
Time of Operation (4) | 90:100 | 195
Time of Operation (5) | 100:110 | 195
Time of Operation (6) | 110:120 | 195
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HA.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
PAD Identifier | 16:21 | 180
Continuation Record No | 21:22 | 016
Speed Limit Altitude | 22:27 | 073
Datum Code | 27:30 | 197
IFR Indicator | 30:31 | 108
Latitude | 32:41 | 036
Longitude | 41:51 | 037
Magnetic Variation | 51:56 | 039
Heliport Elevation | 56:61 | 055
Speed Limit | 61:64 | 072
Recommended VHF Navaid | 64:68 | 023
ICAO Code (2) | 68:70 | 014
Transition Altitude | 70:75 | 053
Transition Level | 75:80 | 053
Public Military Indicator | 80:81 | 177
Time Zone | 81:84 | 178
Daylight Indicator | 84:85 | 179
Pad Dimensions | 85:91 | 176
Magnetic/True Indicator | 91:92 | 165
Heliport Name | 93:123 | 071
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HA.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
PAD Identifier | 16:21 | 180
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HA.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
PAD Identifier | 16:21 | 180
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date/Time | 32:43 | 153
Controlled A/S Indicator | 66:67 | 217
Controlled A/S Airport Indentifier | 67:71 | 006
Controlled A/S Airport ICAO | 71:73 | 014
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HC.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Waypoint Type | 26:29 | 042
Waypoint Usage | 29:31 | 082
Waypoint Latitude | 32:41 | 036
Waypoint Longitude | 41:51 | 037
Dynamic Magnetic Variation | 74:79 | 039
Datum Code | 84:87 | 197
Name Format Indicator | 95:98 | 196
Waypoint Name/Description | 98:123 | 043
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HC.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HC.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date | 32:43 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HD.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Route Type | 19:20 | 007
Transition Identifier | 20:25 | 011
Sequence Number | 26:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Waypoint Description Code | 39:43 | 017
Turn Direction | 43:44 | 020
RNP | 44:47 | 211
Path and Termination | 47:49 | 021
Turn Direction Valid | 49:50 | 022
Recommended Navaid | 50:54 | 023
ICAO Code (3) | 54:56 | 014
Arc Radius | 56:62 | 204
Theta | 62:66 | 024
Rho | 66:70 | 025
Magnetic Course | 70:74 | 026
Route / Holding Distance or Time | 74:78 | 027
Recommended Navaid (2) | 78:80 | 004
Altitude Description | 82:83 | 029
ATC Indicator | 83:84 | 081
Altitude | 84:89 | 030
Altitude (2) | 89:94 | 030
Transition Altitude | 94:99 | 053
Speed Limit | 99:102 | 072
Vertical Angle | 102:106 | 070
Center Fix or TAA Procedure Turn Indicator | 106:111 | 144
Multiple Code or TAA Sector Identifier | 111:112 | 130
ICAO Code (4) | 112:114 | 014
Section Code (3) | 114:116 | 004
GNSS/FMS Indication | 116:117 | 222
Speed Limit Description | 117:118 | 261
Apch Route Qualifier 1 | 118:119 | 007
Apch Route Qualifier 2 | 119:120 | 007
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HD.CE': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Route Type | 19:20 | 007
Transition Identifier | 20:25 | 011
Sequence Number | 26:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
CAT A Decision Height | 40:44 | 170
CAT B Decision Height | 44:48 | 170
CAT C Decision Height | 48:52 | 170
CAT D Decision Height | 52:56 | 170
CAT A Minimum Descent Altitude | 56:60 | 171
CAT B Minimum Descent Altitude | 60:64 | 171
CAT C Minimum Descent Altitude | 64:68 | 171
CAT D Minimum Descent Altitude | 68:72 | 171
Procedure TCH | 72:75 | 067
Localizer Only Altitude Desc | 75:76 | 029
Localizer Only Altitude | 76:81 | 030
Localizer Only Vertical Angle | 81:85 | 070
RNP | 89:92 | 211
Apch Route Qualifier 1 | 118:119 | 007
Apch Route Qualifier 2 | 119:120 | 007
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HD.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Route Type | 19:20 | 007
Transition Identifier | 20:25 | 011
Sequence Number | 26:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Start/End Indicator | 40:41 | 152
Start/End Date | 41:52 | 153
Leg Distance | 74:78 | 260
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HD.CW': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Route Type | 19:20 | 007
Transition Identifier | 20:25 | 011
Sequence Number | 26:29 | 012
Fix Identifier | 29:34 | 013
ICAO Code (2) | 34:36 | 014
Section Code (2) | 36:38 | 004
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
FAS Block Provided | 40:41 | 276
FAS Block Provided Level of Service Name | 41:51 | 275
LNAV/VNAV Authorized for SBAS | 51:52 | 276
LNAV/VNAV Level of Service Name | 52:62 | 275
LNAV Authorized for SBAS | 62:63 | 276
LNAV Level of Service Name | 63:73 | 275
Apch Route Qualifier 1 | 118:119 | 007
Apch Route Qualifier 2 | 119:120 | 007
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HK.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Identifier | 13:19 | 010
TAA Waypoint | 19:24 | 273
TAA Procedure Turn | 20:24 | 271
ICAO Code (2) | 24:26 | 014
Section Code (2) | 26:28 | 004
TAA Fix Position Indicator | 28:29 | 272
Continuation Record No | 29:30 | 016
Mag/True Indicator | 40:41 | 165
Sector Radius | 41:45 | 274
Sector Bearing | 45:51 | 146
Sector Minimum Altitude | 51:54 | 147
Sector Radius (2) | 54:58 | 274
Sector Bearing (2) | 58:64 | 146
Sector Minimum Altitude (2) | 64:67 | 147
Sector Radius (3) | 67:71 | 274
Sector Bearing (3) | 71:77 | 146
Sector Minimum Altitude (3) | 77:80 | 147
Sector Radius (4) | 80:84 | 274
Sector Bearing (4) | 84:90 | 146
Sector Minimum Altitude (4) | 90:93 | 147
Sector Radius (5) | 93:97 | 274
Sector Bearing (5) | 97:103 | 146
Sector Minimum Altitude (5) | 103:106 | 147
Sector Radius (6) | 106:110 | 274
Sector Bearing (6) | 110:116 | 146
Sector Minimum Altitude (6) | 116:119 | 147
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HK.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Identifier | 13:19 | 010
TAA Waypoint | 19:24 | 273
ICAO Code (2) | 24:26 | 014
Section Code (2) | 26:28 | 004
TAA Fix Position Indicator | 28:29 | 272
Continuation Record No | 29:30 | 016
Application Type | 30:31 | 091
Notes | 31:100 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HS.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MSA Center | 13:18 | 144
ICAO Code (2) | 18:20 | 014
Section Code (2) | 20:22 | 004
Multiple Code | 22:23 | 130
Continuation Record No | 38:39 | 016
Sector Bearing | 42:48 | 146
Sector Altitude | 48:51 | 147
Sector Radius | 51:53 | 145
Sector Bearing (2) | 53:59 | 146
Sector Altitude (2) | 59:62 | 147
Sector Radius (2) | 62:64 | 145
Sector Bearing (3) | 64:70 | 146
Sector Altitude (3) | 70:73 | 147
Sector Radius (3) | 73:75 | 145
Sector Bearing (4) | 75:81 | 146
Sector Altitude (4) | 81:84 | 147
Sector Radius (4) | 84:86 | 145
Sector Bearing (5) | 86:92 | 146
Sector Altitude (5) | 92:95 | 147
Sector Radius (5) | 95:97 | 145
Sector Bearing (6) | 97:103 | 146
Sector Altitude (6) | 103:106 | 147
Sector Radius (6) | 106:108 | 145
Sector Bearing (7) | 108:114 | 146
Sector Altitude (7) | 114:117 | 147
Sector Radius (7) | 117:119 | 145
Magnetic/True Bearing | 119:120 | 165
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HS.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MSA Center | 13:18 | 144
ICAO Code (2) | 18:20 | 014
Section Code (2) | 20:22 | 004
Multiple Code | 22:23 | 130
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Notes | 40:109 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HV.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Communications Type | 13:16 | 101
Communications Freq | 16:23 | 103
Guard/Transmit | 23:24 | 182
Frequency Units | 24:25 | 104
Continuation Record No | 25:26 | 016
Service Indicator | 26:29 | 106
Radar Service | 29:30 | 102
Modulation | 30:31 | 198
Signal Emission | 31:32 | 199
Latitude | 32:41 | 036
Longitude | 41:51 | 036
Magnetic Variation | 51:56 | 039
Facility Elevation | 56:61 | 092
H24 Indicator | 61:62 | 181
Sectorization | 62:68 | 183
Altitude Description | 68:69 | 029
Communication Altitude | 69:74 | 184
Communication Altitude (2) | 74:79 | 184
Sector Facility | 79:83 | 185
ICAO Code (2) | 83:85 | 014
Section Code (2) | 85:87 | 004
Distance Description | 87:88 | 187
Communications Distance | 88:90 | 188
Remote Facility | 90:94 | 200
ICAO Code (3) | 94:96 | 014
Section Code (3) | 96:98 | 004
Call Sign | 98:123 | 105
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HV.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Communications Type | 13:16 | 101
Communications Freq | 16:23 | 103
Guard/Transmit | 23:24 | 182
Frequency Units | 24:25 | 104
Continuation Record No | 25:26 | 016
Application Type | 26:27 | 091
Narrative | 27:87 | 186
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'HV.CT': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Communications Type | 13:16 | 101
Communications Freq | 16:23 | 103
Guard/Transmit | 23:24 | 182
Frequency Units | 24:25 | 104
Continuation Record No | 25:26 | 016
Application Type | 26:27 | 091
Time Code | 27:28 | 131
NOTAM | 28:29 | 132
Time Indicator | 29:30 | 138
Time of Operation | 30:40 | 195
Time of Operation (2) | 40:50 | 195
Time of Operation (3) | 50:60 | 195
Time of Operation (4) | 60:70 | 195
Time of Operation (5) | 70:80 | 195
Time of Operation (6) | 80:90 | 195
Time of Operation (7) | 90:100 | 195
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PA.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
Continuation Record No | 21:22 | 016
Speed Limit Altitude | 22:27 | 073
Longest Runway | 27:30 | 054
IFR Capability | 30:31 | 108
Longest Runway Surface Code | 31:32 | 249
Airport Reference Pt. Latitude | 32:41 | 036
Airport Reference Pt. Longitude | 41:51 | 037
Magnetic Variation | 51:56 | 039
Airport Elevation | 56:61 | 055
Speed Limit | 61:64 | 072
Recommended Navaid | 64:68 | 023
ICAO Code (2) | 68:70 | 014
Transition Altitude | 70:75 | 053
Transition Level | 75:80 | 053
Public Military Indicator | 80:81 | 177
Time Zone | 81:84 | 178
Daylight Indicator | 84:85 | 179
Magnetic/True Indicator | 85:86 | 165
Datum Code | 86:89 | 197
Airport Name | 93:123 | 071
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PA.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PA.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
ATA/IATA Designator | 13:16 | 107
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date/Time | 32:43 | 153
Controlled A/S Indicator | 66:67 | 217
Controlled A/S Airport Ident | 67:71 | 006
Controlled A/S Airport ICAO | 71:73 | 014
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PB.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Gate Identifier | 13:18 | 056
Continuation Record No | 21:22 | 016
Gate Latitude | 32:41 | 036
Gate Longitude | 41:51 | 037
Name | 98:123 | 060
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PB.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Gate Identifier | 13:18 | 056
Continuation Record No | 21:22 | 016
Application Notes | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PC.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Waypoint Type | 26:29 | 042
Waypoint Usage | 29:31 | 082
Waypoint Latitude | 32:41 | 036
Waypoint Longitude | 41:51 | 037
Dynamic Mag. Variation | 74:79 | 039
Datum Code | 84:87 | 197
Name Format Indicator | 95:98 | 196
Waypoint Name / Desc | 98:123 | 043
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PC.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:123 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PC.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Region Code | 6:10 | 041
ICAO Code | 10:12 | 014
Waypoint Identifier | 13:18 | 013
ICAO Code (2) | 19:21 | 014
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
FIR Identifier | 23:27 | 116
UIR Identifier | 27:31 | 116
Start/End Indicator | 31:32 | 152
Start/End Date | 32:43 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PG.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Runway Identifier | 13:18 | 046
Continuation Record No | 21:22 | 016
Runway Length | 22:27 | 057
Runway Magnetic Bearing | 27:31 | 058
Runway Latitude | 32:41 | 036
Runway Longitude | 41:51 | 037
Runway Gradient | 51:56 | 212
(LTP) Ellipsoid Height | 60:66 | 225
Landing Threshold Elevation | 66:71 | 068
Displaced Threshold Dist | 71:75 | 069
Threshold Crossing Height | 75:77 | 067
Runway Width | 77:80 | 109
TCH Value Indicator | 80:81 | 270
Localizer/MLS/GLS Ref Path Ident | 81:85 | 044
Localizer/MLS/GLS Category/Class | 85:86 | 080
Stopway | 86:90 | 079
Localizer/MLS/GLS Ref Path Ident (2) | 90:94 | 044
Localizer/MLS/GLS Category/Class (2) | 94:95 | 080
Runway Description | 101:123 | 059
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PG.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Runway Identifier | 13:18 | 046
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PG.CS': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport ICAO Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Runway Identifier | 13:18 | 046
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Runway True Bearing | 51:56 | 094
True Bearing Source | 56:57 | 095
TDZE Location | 65:66 | 098
Touchdown Zone Elevation | 66:71 | 097
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PI.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Localizer Identifier | 13:17 | 044
ILS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Localizer Frequency | 22:27 | 045
Runway Identifier | 27:32 | 046
Localizer Latitude | 32:41 | 036
Localizer Longitude | 41:51 | 037
Localizer Bearing | 51:55 | 047
Glide Slope Latitude | 55:64 | 036
Glide Slope Longitude | 64:74 | 037
Localizer Position | 74:78 | 048
Localizer Position Reference | 78:79 | 049
Glide Slope Position | 79:83 | 050
Localizer Width | 83:87 | 051
Glide Slope Angle | 87:90 | 052
Station Declination | 90:95 | 066
Glide Slope Height at Landing Threshold | 95:97 | 067
Glide Slope Elevation | 97:102 | 074
Supporting Facility ID Note 1 | 102:106 | 033
Supporting Facility ICAO Code Note 1 | 106:108 | 014
Supporting Facility Section Code Note 1 | 108:110 | 004
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PI.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Localizer Identifier | 13:17 | 044
ILS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Notes | 23:92 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PI.CS': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Localizer Identifier | 13:17 | 044
ILS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Facility Characteristics | 27:32 | 093
Localizer True Bearing | 51:56 | 094
Localizer Bearing Source | 56:57 | 095
Glide Slope Beam Width | 87:90 | 096
Approach Route Ident | 90:96 | 010
Approach Route Ident (2) | 96:102 | 010
Approach Route Ident (3) | 102:108 | 010
Approach Route Ident (4) | 108:114 | 010
Approach Route Ident (5) | 114:120 | 010
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PK.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Identifier | 13:19 | 010
TAA Waypoint | 19:24 | 273
TAA Procedure Turn | 20:24 | 271
ICAO Code (2) | 24:26 | 014
Section Code (2) | 26:28 | 004
TAA Fix Position Indicator | 28:29 | 272
Continuation Record No | 29:30 | 016
Mag/True Indicator | 40:41 | 165
Sector Radius | 41:45 | 274
Sector Bearing | 45:51 | 146
Sector Minimum Altitude | 51:54 | 147
Sector Radius (2) | 54:58 | 274
Sector Bearing (2) | 58:64 | 146
Sector Minimum Altitude (2) | 64:67 | 147
Sector Radius (3) | 67:71 | 274
Sector Bearing (3) | 71:77 | 146
Sector Minimum Altitude (3) | 77:80 | 147
Sector Radius (4) | 80:84 | 274
Sector Bearing (4) | 84:90 | 146
Sector Minimum Altitude (4) | 90:93 | 147
Sector Radius (5) | 93:97 | 274
Sector Bearing (5) | 97:103 | 146
Sector Minimum Altitude (5) | 103:106 | 147
Sector Radius (6) | 106:110 | 274
Sector Bearing (6) | 110:116 | 146
Sector Minimum Altitude (6) | 116:119 | 147
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PK.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Identifier | 13:19 | 010
TAA Waypoint | 19:24 | 273
ICAO Code (2) | 24:26 | 014
Section Code (2) | 26:28 | 004
TAA Fix Position Indicator | 28:29 | 272
Continuation Record No | 29:30 | 016
Application Type | 30:31 | 091
Notes | 31:100 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PL.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MLS Identifier | 13:17 | 044
MLS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Channel | 22:25 | 166
Runway Identifier | 27:32 | 046
Azimuth Latitude | 32:41 | 036
Azimuth Longitude | 41:51 | 037
Azimuth Bearing | 51:55 | 167
Elevation Latitude | 55:64 | 036
Elevation Longitude | 64:74 | 037
Azimuth Position | 74:78 | 048
Azimuth Position Reference | 78:79 | 049
Elevation Position | 79:83 | 050
Azimuth Proportional Angle Right | 83:86 | 168
Azimuth Proportional Angle Left | 86:89 | 168
Azimuth Coverage Right | 89:92 | 172
Azimuth Coverage Left | 92:95 | 172
Elevation Angle Span | 95:98 | 169
Magnetic Variation | 98:103 | 039
EL Elevation | 103:108 | 074
Nominal Elevation Angle | 108:112 | 173
Minimum Glide Path Angle | 112:115 | 052
Supporting Facility Identifier | 115:119 | 033
Supporting Facility ICAO Code | 119:121 | 014
Supporting Facility Section | 121:123 | 004
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PL.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MLS Identifier | 13:17 | 044
MLS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
Facility Characteristics | 27:32 | 093
Back Azimuth Latitude | 32:41 | 036
Back Azimuth Longitude | 41:51 | 037
Back Azimuth Bearing | 51:55 | 167
MLS Datum Point Latitude | 55:64 | 036
MLS Datum Point Longitude | 64:74 | 037
Back Azimuth Position | 74:78 | 048
Back Azimuth Position Reference | 78:79 | 049
Back Azimuth Proportional Angle Right | 83:86 | 168
Back Azimuth Proportional Angle Left | 86:89 | 168
Back Azimuth Coverage Right | 89:92 | 172
Back Azimuth Coverage Left | 92:95 | 172
Back Azimuth True Bearing | 95:100 | 094
Back Azimuth Bearing Source | 100:101 | 095
Azimuth True Bearing | 101:106 | 094
Azimuth Bearing Source | 106:107 | 095
Glide Path Height at Landing Threshold | 107:109 | 067
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PM.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Localizer Identifier | 13:17 | 044
Marker Type | 17:20 | 099
Continuation Record No | 21:22 | 016
Locator Frequency | 22:27 | 034
Runway Identifier | 27:32 | 046
Marker Latitude | 32:41 | 036
Marker Longitude | 41:51 | 037
Minor Axis Bearing | 51:55 | 100
Locator Latitude | 55:64 | 036
Locator Longitude | 64:74 | 037
Localizer Class | 74:79 | 035
Localizer Facility Characteristics | 79:83 | 093
Localizer Identifier (2) | 84:88 | 033
Magnetic Variation | 90:95 | 039
Facility Elevation | 97:102 | 092
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PM.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Localizer Identifier | 13:17 | 044
Marker Type | 17:20 | 099
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PP.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Procedure Ident | 13:19 | 010
Runway or Helipad Ident | 19:24 | 046
Operation Type | 24:26 | 223
Continuation Record No | 26:27 | 016
Route Identifier | 27:28 | 224
SBAS Service Provider Ident | 28:30 | 255
Reference Path Data Selector | 30:32 | 256
Reference Path Identifier | 32:36 | 257
Approach Performance Designator | 36:37 | 258
Landing Threshold Point Latitude | 37:48 | 267
Landing Threshold Point Longitude | 48:60 | 268
(LTP) Ellipsoid Height | 60:66 | 225
Glide Path Angle | 66:70 | 226
Flight Path Alignment Point Latitude | 70:81 | 267
Flight Path Alignment Point Longitude | 81:93 | 268
Course Width at Threshold Note 4 | 93:98 | 228
Length Offset | 98:102 | 259
Path Point TCH | 102:108 | 265
TCH Units Indicator | 108:109 | 266
HAL | 109:112 | 263
VAL | 112:115 | 264
SBAS FAS Data CRC Remainder | 115:123 | 229
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PP.CE': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Approach Procedure Ident | 13:19 | 010
Runway or Helipad Ident | 19:24 | 046
Operation Type | 24:26 | 223
Continuation Record No | 26:27 | 016
Application Type | 27:28 | 091
(FPAP) Ellipsoid Height | 28:34 | 225
(FPAP) Orthometric Height | 34:40 | 227
(LTP) Orthometric Height | 40:46 | 227
Approach Type Identifier | 46:56 | 262
GNSS Channel Number | 56:61 | 244
Helicopter Procedure Course | 71:74 | 269
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PR.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Procedure Type | 19:20 | 230
Runway Transition Identifier | 20:25 | 011
Runway Transition Fix | 25:30 | 013
ICAO Code (2) | 30:32 | 014
Section Code (2) | 32:34 | 004
Runway Transition Along Track Dist | 34:37 | 231
Common Segment Transition Fix | 37:42 | 013
ICAO Code (3) | 42:44 | 014
Section Code (3) | 44:46 | 004
Common Segment Along Track Dist | 46:49 | 231
Enroute Transition Identifier | 49:54 | 011
Enroute Transition Fix | 54:59 | 013
ICAO Code (4) | 59:61 | 014
Section Code (4) | 61:63 | 004
Enroute Transition Along Track Dist | 63:66 | 231
Sequence Number | 66:69 | 012
Continuation Number | 69:70 | 016
Number of Engines | 70:74 | 232
Turboprop/Jet Indicator | 74:75 | 233
RNAV Flag | 75:76 | 234
ATC Weight Category | 76:77 | 235
ATC Identifier | 77:84 | 236
Time Code | 84:85 | 131
Procedure Description | 85:100 | 237
Leg Type Code | 100:102 | 238
Reporting Code | 102:103 | 239
Initial Departure Magnetic Course | 103:107 | 026
Altitude Description | 107:108 | 029
Altitude | 108:111 | 240
Altitude (2) | 111:114 | 240
Speed Limit | 114:117 | 072
Initial Cruise Table | 117:119 | 134
Speed Limit Description | 119:120 | 261
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PR.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Procedure Type | 19:20 | 230
Runway Transition Identifier | 20:25 | 011
Runway Transition Fix | 25:30 | 013
ICAO Code (2) | 30:32 | 014
Section Code (2) | 32:34 | 004
Runway Transition Along Track Dist | 34:37 | 231
Common Segment Transition Fix | 37:42 | 013
ICAO Code (3) | 42:44 | 014
Section Code (3) | 44:46 | 004
Common Segment Along Track Dist | 46:49 | 231
Enroute Transition Identifier | 49:54 | 011
Enroute Transition Fix | 54:59 | 013
ICAO Code (4) | 59:61 | 014
Section Code (4) | 61:63 | 004
Enroute Transition Along Track Dist | 63:66 | 231
Sequence Number | 66:69 | 012
Continuation Number | 69:70 | 016
Application Type | 70:71 | 091
Intermediate Fix Identifier | 71:76 | 013
ICAO Code (5) | 76:78 | 014
Section Code (5) | 78:80 | 004
Intermediate Distance | 80:83 | 231
Fix Related Transition Code | 83:84 | 241
Intermediate Fix Identifier (2) | 84:89 | 013
ICAO Code (6) | 89:91 | 014
Section Code (6) | 91:93 | 004
Intermediate Distance (2) | 93:96 | 231
Fix Related Transition Code (2) | 96:97 | 241
Intermediate Fix Identifier (3) | 97:102 | 013
ICAO Code (7) | 102:104 | 014
Section Code (7) | 104:106 | 004
Intermediate Distance (3) | 106:109 | 231
Fix Related Transition Code (3) | 109:110 | 241
Intermediate Fix Identifier (4) | 110:115 | 013
ICAO Code (8) | 115:117 | 014
Section Code (8) | 117:119 | 004
Intermediate Distance (4) | 119:122 | 231
Fix Related Transition Code (4) | 122:123 | 241
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PR.CT': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
SID/STAR/Approach Identifier | 13:19 | 009
Procedure Type | 19:20 | 230
Runway Transition Identifier | 20:25 | 011
Runway Transition Fix | 25:30 | 013
ICAO Code (2) | 30:32 | 014
Section Code (2) | 32:34 | 004
Runway Transition Along Track Dist | 34:37 | 231
Common Segment Transition Fix | 37:42 | 013
ICAO Code (3) | 42:44 | 014
Section Code (3) | 44:46 | 004
Common Segment Along Track Dist | 46:49 | 231
Enroute Transition Identifier | 49:54 | 011
Enroute Transition Fix | 54:59 | 013
ICAO Code (4) | 59:61 | 014
Section Code (4) | 61:63 | 004
Enroute Transition Along Track Dist | 63:66 | 231
Sequence Number | 66:69 | 012
Continuation Number | 69:70 | 016
Application Type | 70:71 | 091
Time Code | 71:72 | 131
Time Indicator | 72:73 | 138
Time of Operation | 73:83 | 195
Time of Operation (1) | 83:93 | 195
Time of Operation (2) | 93:103 | 195
Time of Operation (3) | 103:113 | 195
Time of Operation (4) | 113:123 | 195
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PS.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MSA Center | 13:18 | 144
ICAO Code (2) | 18:20 | 014
Section Code (2) | 20:22 | 004
Multiple Code | 22:23 | 130
Continuation Record No | 38:39 | 016
Sector Bearing | 42:48 | 146
Sector Altitude | 48:51 | 147
Sector Radius | 51:53 | 145
Sector Bearing (2) | 53:59 | 146
Sector Altitude (2) | 59:62 | 147
Sector Radius (2) | 62:64 | 145
Sector Bearing (3) | 64:70 | 146
Sector Altitude (3) | 70:73 | 147
Sector Radius (3) | 73:75 | 145
Sector Bearing (4) | 75:81 | 146
Sector Altitude (4) | 81:84 | 147
Sector Radius (4) | 84:86 | 145
Sector Bearing (5) | 86:92 | 146
Sector Altitude (5) | 92:95 | 147
Sector Radius (5) | 95:97 | 145
Sector Bearing (6) | 97:103 | 146
Sector Altitude (6) | 103:106 | 147
Sector Radius (6) | 106:108 | 145
Sector Bearing (7) | 108:114 | 146
Sector Altitude (7) | 114:117 | 147
Sector Radius (7) | 117:119 | 145
Magnetic/True Bearing | 119:120 | 165
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PS.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
MSA Center | 13:18 | 144
ICAO Code (2) | 18:20 | 014
Section Code (2) | 20:22 | 004
Multiple Code | 22:23 | 130
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
Notes | 40:109 | 061
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PT.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport and Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
GLS Ref Path Identifier | 13:17 | 044
GLS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
GLS Channel | 22:27 | 244
Runway Identifier | 27:32 | 046
GLS Approach Bearing | 51:55 | 047
Station Latitude | 55:64 | 036
Station Longitude | 64:74 | 037
GLS Station Ident | 74:78 | 243
Service Volume Radius | 83:85 | 245
TDMA Slots | 85:87 | 246
GLS Approach Slope | 87:90 | 052
Magnetic Variation | 90:95 | 039
Station Elevation | 97:102 | 074
Datum Code | 102:105 | 197
Station Type | 105:108 | 247
Station Elevation WGS | 110:115 | 248
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PT.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport and Heliport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
GLS Ref Path Identifier | 13:17 | 044
GLS Category | 17:18 | 080
Continuation Record No | 21:22 | 016
Application Type | 22:23 | 091
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PV.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Communications Type | 13:16 | 101
Communications Freq | 16:23 | 103
Guard/Transmit | 23:24 | 182
Frequency Units | 24:25 | 104
Continuation Record No | 25:26 | 016
Service Indicator | 26:29 | 106
Radar Service | 29:30 | 102
Modulation | 30:31 | 198
Signal Emission | 31:32 | 199
Latitude | 32:41 | 036
Longitude | 41:51 | 037
Magnetic Variation | 51:56 | 039
Facility Elevation | 56:61 | 092
H24 Indicator | 61:62 | 181
Sectorization | 62:68 | 183
Altitude Description | 68:69 | 029
Communication Altitude | 69:74 | 184
Communication Altitude (2) | 74:79 | 184
Sector Facility | 79:83 | 185
ICAO Code (2) | 83:85 | 014
Section (2) | 85:87 | 004
Distance Description | 87:88 | 187
Communications Distance | 88:90 | 188
Remote Facility | 90:94 | 200
ICAO Code (3) | 94:96 | 014
Section (3) | 96:98 | 004
Call Sign | 98:123 | 105
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'PV.CN': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:5+12:13 | 004
Airport Identifier | 6:10 | 006
ICAO Code | 10:12 | 014
Communications Type | 13:16 | 101
Communications Freq | 16:23 | 103
Guard/Transmit | 23:24 | 182
Frequency Units | 24:25 | 104
Continuation Record No | 25:26 | 016
Application Type | 26:27 | 091
Narrative | 27:87 | 186
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'R.P': """
Record Type | 0:1 | 002
Customer | 1:4 | 003
Section Code | 4:6 | 004
From Airport/Fix | 6:11 | 075
ICAO Code | 12:14 | 014
Section Code (2) | 14:16 | 004
To Airport/Fix | 16:21 | 075
ICAO Code (2) | 22:24 | 014
Section Code (3) | 24:26 | 004
Company Route ID | 26:36 | 076
Sequence Number | 36:39 | 012
VIA | 39:42 | 077
SID/STAR/App/Awy | 42:48 | 078
Area Code | 48:51 | 003
To Fix | 51:57 | 083
ICAO Code (3) | 57:59 | 014
Section Code (4) | 59:61 | 004
RUnway Trans | 61:66 | 084
ENRT Trans | 66:71 | 085
Cruise Altitude | 72:77 | 086
Terminal/Alternate Airport | 77:81 | 087
ICAO Code (4) | 81:83 | 014
Alternate Distance | 83:87 | 088
Cost Index | 87:90 | 089
Enroute Alternate Airport | 90:94 | 148
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'RA.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Alternate Related Airport to Fix | 6:11 | 075
Alternate Related ICAO Code | 11:13 | 014
Alternate Section | 13:15 | 004
Alternate Record Type | 15:17 | 250
Distance to Alternate | 19:22 | 251
Alternate Type | 22:23 | 252
Primary Alternate Identifier | 23:33 | 253
Distance to Alternate (2) | 35:38 | 251
Alternate Type (2) | 38:39 | 252
Additional Alternate Identifier One | 39:49 | 253
Distance to Alternate (3) | 51:54 | 251
Alternate Type (3) | 54:55 | 252
Additional Alternate Identifier Two | 55:65 | 253
Distance to Alternate (4) | 67:70 | 251
Alternate Type (4) | 70:71 | 252
Additional Alternate Identifier (3)) | 71:81 | 253
Distance to Alternate (5) | 83:86 | 251
Alternate Type (5) | 86:87 | 252
Additional Alternate Identifier (4) | 87:97 | 253
Distance to Alternate (6) | 99:102 | 251
Alternate Type (6) | 102:103 | 252
Additional Alternate Identifier (5) | 103:113 | 253
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'TC.P': """
Record Type | 0:1 | 002
Section Code | 4:6 | 004
Cruise Table Identifier | 6:8 | 134
Sequence Number | 8:9 | 012
Course From | 28:32 | 135
Course To | 32:36 | 135
Mag/True | 36:37 | 165
Cruise Level From | 39:44 | 136
Vertical Separation | 44:49 | 137
Cruise Level To  | 49:54 | 136
Cruise Level From (2) | 54:59 | 136
Vertical Separation (2) | 59:64 | 137
Cruise Level To (2) | 64:69 | 136
Cruise Level From (3) | 69:74 | 136
Vertical Separation (3) | 74:79 | 137
Cruise Level To (3) | 79:84 | 136
Cruise Level From (4) | 84:89 | 136
Vertical Separation (4) | 89:94 | 137
Cruise Level To (4) | 94:99 | 136
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'TG.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Geographical Ref Table ID | 6:8 | 218
Sequence Number | 8:9 | 012
Geographical Entity | 9:38 | 219
Continuation Record No | 38:39 | 016
Preferred Route Ident | 40:50 | 008
Preferred Route Use Ind | 50:52 | 220
Preferred Route Ident (2) | 52:62 | 008
Preferred Route Use Ind (2) | 62:64 | 220
Preferred Route Ident (3) | 64:74 | 008
Preferred Route Use Ind (3) | 74:76 | 220
Preferred Route Ident (4) | 76:86 | 008
Preferred Route Use Ind (4) | 86:88 | 220
Preferred Route Ident (5) | 88:98 | 008
Preferred Route Use Ind (5) | 98:100 | 220
Preferred Route Ident (6) | 100:110 | 008
Preferred Route Use Ind (6) | 110:112 | 220
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'TG.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
Geographical Ref Table ID | 6:8 | 218
Sequence Number | 8:9 | 012
Geographical Entity | 9:38 | 219
Continuation Record No | 38:39 | 016
Application Type | 39:40 | 091
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UC.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
ICAO Code | 6:8 | 014
Airspace Type | 8:9 | 213
Airspace Center | 9:14 | 214
Section Code (2) | 14:16 | 004
Airspace Classification | 16:17 | 215
Multiple Code | 19:20 | 130
Sequence Number | 20:24 | 012
Continuation Record No | 24:25 | 016
Level | 25:26 | 019
Time Code | 26:27 | 131
NOTAM | 27:28 | 132
Boundary Via | 30:32 | 118
Latitude | 32:41 | 036
Longitude | 41:51 | 037
Arc Origin Latitude | 51:60 | 036
Arc Origin Longitude | 60:70 | 037
Arc Distance | 70:74 | 119
Arc Bearing | 74:78 | 120
RNP | 78:81 | 211
Lower Limit | 81:86 | 121
Unit Indicator | 86:87 | 133
Upper Limit | 87:92 | 121
Unit Indicator (2) | 92:93 | 133
Controlled Airspace Name | 93:123 | 216
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UC.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
ICAO Code | 6:8 | 014
Airspace Type | 8:9 | 213
Airspace Center | 9:14 | 214
Section Code (2) | 14:16 | 004
Airspace Classification | 16:17 | 215
Multiple Code | 19:20 | 130
Sequence Number | 20:24 | 012
Continuation Record No | 24:25 | 016
Application Type | 25:26 | 091
Time Code | 26:27 | 131
NOTAM | 27:28 | 132
Time Indicator | 28:29 | 138
Time of Operations | 29:39 | 195
Time of Operations (2) | 39:49 | 195
Time of Operations (3) | 49:59 | 195
Time of Operations (4) | 59:69 | 195
Time of Operations (5) | 69:79 | 195
Time of Operations (6) | 79:89 | 195
Time of Operations (7) | 89:99 | 195
Controlling Agency | 99:123 | 140
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UF.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
FIR/UIR Identifier | 6:10 | 116
FIR/UIR Address | 10:14 | 151
FIR/UIR Indicator | 14:15 | 117
Sequence Number | 15:19 | 012
Continuation Record No | 19:20 | 016
Adjacent FIR Identifier | 20:24 | 116
Adjacent UIR Identifier | 24:28 | 116
Reporting Units Speed | 28:29 | 122
Reporting Units Altitude | 29:30 | 123
Entry Report | 30:31 | 124
Boundary Via | 32:34 | 118
FIR/UIR Latitude | 34:43 | 036
FIR/UIR Longitude | 43:53 | 037
Arc Origin Latitude | 53:62 | 036
Arc Origin Longitude | 62:72 | 037
Arc Distance | 72:76 | 119
Arc Bearing | 76:80 | 120
FIR Upper Limit | 80:85 | 121
UIR Lower Limit | 85:90 | 121
UIR Upper Limit | 90:95 | 121
Cruise Table Ind | 95:97 | 134
FIR/UIR Name | 98:123 | 125
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UF.CA': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
FIR/UIR Identifier | 6:10 | 116
FIR/UIR Address | 10:14 | 151
FIR/UIR Indicator | 14:15 | 117
Sequence Number | 15:19 | 012
Continuation Record No | 19:20 | 016
Application Type | 20:21 | 091
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UR.P': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
ICAO Code | 6:8 | 014
Restrictive Type | 8:9 | 128
Restrictive Airspace Designation | 9:19 | 129
Multiple Code | 19:20 | 130
Sequence Number | 20:24 | 012
Continuation Record No | 24:25 | 016
Level | 25:26 | 019
Time Code | 26:27 | 131
NOTAM | 27:28 | 132
Boundary Via | 30:32 | 118
Latitude | 32:41 | 036
Longitude | 41:51 | 037
Arc Origin Latitude | 51:60 | 036
Arc Origin Longitude | 60:70 | 037
Arc Distance | 70:74 | 119
Arc Bearing | 74:78 | 120
Lower Limit | 81:86 | 121
Unit Indicator | 86:87 | 133
Upper Limit | 87:92 | 121
Unit Indicator (2) | 92:93 | 133
Restrictive Airspace Name | 93:123 | 126
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UR.CC': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
ICAO Code | 6:8 | 014
Restrictive Type | 8:9 | 128
Restrictive Airspace Designation | 9:19 | 129
Multiple Code | 19:20 | 130
Sequence Number | 20:24 | 012
Continuation Record No | 24:25 | 016
Application Type | 25:26 | 091
Time Code | 26:27 | 131
NOTAM | 27:28 | 132
Time Indicator | 28:29 | 138
Time of Operations | 29:39 | 195
Time of Operations (2) | 39:49 | 195
Time of Operations (3) | 49:59 | 195
Time of Operations (4) | 59:69 | 195
Time of Operations (5) | 69:79 | 195
Time of Operations (6) | 79:89 | 195
Time of Operations (7) | 89:99 | 195
Controlling Agency | 99:123 | 140
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
  'UR.CP': """
Record Type | 0:1 | 002
Customer / Area Code | 1:4 | 003
Section Code | 4:6 | 004
ICAO Code | 6:8 | 014
Restrictive Type | 8:9 | 128
Restrictive Airspace Designation | 9:19 | 129
Multiple Code | 19:20 | 130
Sequence Number | 20:24 | 012
Continuation Record No | 24:25 | 016
Application Type | 25:26 | 091
Start/End Indicator | 29:30 | 152
Start/End Date | 30:41 | 153
File Record No | 123:128 | 031
Cycle Date | 128:132 | 032
""",
}

# cont: column of the continuation number; sel: columns of the application type
# (for EU: of the restriction type); primary/other: layouts; default: layout of
# any application type not listed (None: rejected)
RECORDS = {
  'AS': {'cont': None, 'sel': None, 'primary': 'AS.P', 'other': {}, 'default': None},
  'D ': {'cont': 21, 'sel': [22, 23], 'primary': 'D.P', 'other': {'A': 'D.CA', 'L': 'D.CL', 'P': 'D.CP', 'S': 'D.CS'}, 'default': None},
  'DB': {'cont': 21, 'sel': [22, 23], 'primary': 'DB.P', 'other': {'A': 'DB.CA', 'P': 'DB.CP', 'Q': 'DB.P', 'S': 'DB.CS'}, 'default': None},
  'EA': {'cont': 21, 'sel': [22, 23], 'primary': 'EA.P', 'other': {'A': 'EA.CA', 'P': 'EA.CP', 'Q': 'EA.P'}, 'default': None},
  'EM': {'cont': 21, 'sel': [22, 23], 'primary': 'EM.P', 'other': {'A': 'EM.CA'}, 'default': None},
  'EP': {'cont': 38, 'sel': [39, 40], 'primary': 'EP.P', 'other': {'A': 'EP.CA'}, 'default': None},
  'ER': {'cont': 38, 'sel': [39, 40], 'primary': 'ER.P', 'other': {'A': 'ER.CA', 'P': 'ER.CP', 'Q': 'ER.P'}, 'default': None},
  'ET': {'cont': 38, 'sel': [39, 40], 'primary': 'ET.P', 'other': {'A': 'ET.CA', 'T': 'ET.CT'}, 'default': None},
  'EU': {'cont': 17, 'sel': [15, 17], 'primary': {'AE': 'EU.PAE', 'TC': 'EU.PTC', 'SC': 'EU.PTC', 'NR': 'EU.PNR'}, 'other': {'AE': 'EU.CAE', 'TC': 'EU.CTC', 'NR': 'EU.CNR'}, 'default': None},
  'EV': {'cont': 55, 'sel': [56, 57], 'primary': 'EV.P', 'other': {' ': 'EV.C ', 'T': 'EV.CT'}, 'default': None},
  'HA': {'cont': 21, 'sel': [22, 23], 'primary': 'HA.P', 'other': {'A': 'HA.CA', 'P': 'HA.CP', 'Q': 'HA.CA'}, 'default': None},
  'HC': {'cont': 21, 'sel': [22, 23], 'primary': 'HC.P', 'other': {'A': 'HC.CA', 'P': 'HC.CP'}, 'default': 'HC.P'},
  'HD': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'HE': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'HF': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'HK': {'cont': 29, 'sel': [30, 31], 'primary': 'HK.P', 'other': {'A': 'HK.CA'}, 'default': None},
  'HS': {'cont': 38, 'sel': [39, 40], 'primary': 'HS.P', 'other': {'A': 'HS.CA'}, 'default': None},
  'HV': {'cont': 25, 'sel': [26, 27], 'primary': 'HV.P', 'other': {'A': 'HV.CA', 'T': 'HV.CT'}, 'default': None},
  'PA': {'cont': 21, 'sel': [22, 23], 'primary': 'PA.P', 'other': {'A': 'PA.CA', 'P': 'PA.CP', 'Q': 'PA.P'}, 'default': None},
  'PB': {'cont': 21, 'sel': [22, 23], 'primary': 'PB.P', 'other': {'A': 'PB.CA'}, 'default': None},
  'PC': {'cont': 21, 'sel': [22, 23], 'primary': 'PC.P', 'other': {'A': 'PC.CA', 'P': 'PC.CP', 'Q': 'PC.P'}, 'default': None},
  'PD': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'PE': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'PF': {'cont': 38, 'sel': [39, 40], 'primary': 'HD.P', 'other': {'E': 'HD.CE', 'P': 'HD.CP', 'W': 'HD.CW'}, 'default': None},
  'PG': {'cont': 21, 'sel': [22, 23], 'primary': 'PG.P', 'other': {'A': 'PG.CA', 'S': 'PG.CS'}, 'default': None},
  'PI': {'cont': 21, 'sel': [22, 23], 'primary': 'PI.P', 'other': {'A': 'PI.CA', 'S': 'PI.CS'}, 'default': None},
  'PK': {'cont': 29, 'sel': [30, 31], 'primary': 'PK.P', 'other': {'A': 'PK.CA'}, 'default': None},
  'PL': {'cont': 21, 'sel': [22, 23], 'primary': 'PL.P', 'other': {'A': 'PL.CA'}, 'default': None},
  'PM': {'cont': 21, 'sel': [22, 23], 'primary': 'PM.P', 'other': {'A': 'PM.CA'}, 'default': None},
  'PN': {'cont': 21, 'sel': [22, 23], 'primary': 'DB.P', 'other': {'A': 'DB.CA', 'P': 'DB.CP', 'Q': 'DB.P', 'S': 'DB.CS'}, 'default': None},
  'PP': {'cont': 26, 'sel': [27, 28], 'primary': 'PP.P', 'other': {'E': 'PP.CE'}, 'default': None},
  'PR': {'cont': 69, 'sel': [70, 71], 'primary': 'PR.P', 'other': {'A': 'PR.CA', 'T': 'PR.CT'}, 'default': None},
  'PS': {'cont': 38, 'sel': [39, 40], 'primary': 'PS.P', 'other': {'A': 'PS.CA'}, 'default': None},
  'PT': {'cont': 21, 'sel': [22, 23], 'primary': 'PT.P', 'other': {'A': 'PT.CA'}, 'default': None},
  'PV': {'cont': 25, 'sel': [26, 27], 'primary': 'PV.P', 'other': {'N': 'PV.CN'}, 'default': None},
  'R ': {'cont': None, 'sel': None, 'primary': 'R.P', 'other': {}, 'default': None},
  'RA': {'cont': None, 'sel': None, 'primary': 'RA.P', 'other': {}, 'default': None},
  'TC': {'cont': None, 'sel': None, 'primary': 'TC.P', 'other': {}, 'default': None},
  'TG': {'cont': 38, 'sel': [39, 40], 'primary': 'TG.P', 'other': {'A': 'TG.CA'}, 'default': None},
  'UC': {'cont': 24, 'sel': [25, 26], 'primary': 'UC.P', 'other': {'A': 'UC.CA'}, 'default': None},
  'UF': {'cont': 19, 'sel': [20, 21], 'primary': 'UF.P', 'other': {'A': 'UF.CA'}, 'default': None},
  'UR': {'cont': 24, 'sel': [25, 26], 'primary': 'UR.P', 'other': {'C': 'UR.CC', 'P': 'UR.CP', 'T': 'UR.CC'}, 'default': None},
}
