"""Reference model: what the library must report for a given record line.

Independent of the code under test: layouts come from layouts.py, the meaning of
codes from the tables below.  Only behaviour at the public API is modelled.
"""
import layouts

LEN = 132


class Field:
  __slots__ = ('name', 'runs', 'para', 'width')

  def __init__(self, name, runs, para):
    self.name, self.runs, self.para = name, runs, para
    self.width = sum(b - a for a, b in runs)

  def value(self, line):
    return ''.join(line[a:b] for a, b in self.runs)

  def columns(self):
    return [c for a, b in self.runs for c in range(a, b)]

  def put(self, chars, text):
    """write text into the list of characters of a line"""
    assert len(text) == self.width, (self.name, text)
    for c, ch in zip(self.columns(), text):
      chars[c] = ch


def _load():
  out = {}
  for name, text in layouts.TEXT.items():
    fields = []
    for row in text.strip('\n').split('\n'):
      n, cols, para = row.split(' | ')
      runs = tuple(tuple(int(x) for x in r.split(':')) for r in cols.split('+'))
      fields.append(Field(n, runs, para))
    out[name] = tuple(fields)
  return out


LAYOUTS = _load()
RECORDS = layouts.RECORDS
SECTIONS = tuple(RECORDS)


# ------------------------------------------------------------------ acceptance

class Reject:
  def __init__(self, why):
    self.why = why


class Accept:
  __slots__ = ('line', 'section', 'cont', 'layout', 'layout_name', 'primary', 'has_cont')


def classify(text):
  """Accept or Reject for any text."""
  line = text.strip()
  if not line.startswith(('S', 'T')):
    return Reject('record type')
  if len(line) != LEN:
    return Reject('length')
  if not line[-9:].isnumeric():
    return Reject('file record number / cycle date')
  code = line[4:6]
  if code not in RECORDS:
    if line[4] in 'PH' and line[5] == ' ':
      code = line[4] + line[12]
      if code not in RECORDS:
        return Reject('section')
    else:
      return Reject('section')
  spec = RECORDS[code]
  a = Accept()
  a.line, a.section, a.cont = line, code, None
  a.primary = True
  if spec['cont'] is not None:
    a.cont = line[spec['cont']]
    if not a.cont.isalnum():
      return Reject('continuation number')
    a.primary = a.cont in ('0', '1')
  a.has_cont = a.cont == '1'
  sel = line[spec['sel'][0]:spec['sel'][1]] if spec['sel'] else None
  if a.primary:
    name = spec['primary']
    if isinstance(name, dict):
      name = name.get(sel)
  else:
    name = spec['other'].get(sel, spec['default'])
  if name is None:
    return Reject('application type')
  a.layout_name, a.layout = name, LAYOUTS[name]
  return a


def values(acc):
  """[(name, raw value)] in order"""
  return [(f.name, f.value(acc.line)) for f in acc.layout]


# ------------------------------------------------------------------ decoding

class Bad(Exception):
  """the value is not one the field's definition allows: must be refused"""


AREA = {
  'USA': 'United States of America', 'AFR': 'Africa', 'CAN': 'Canada',
  'EEU': 'Eastern Europe and Asia', 'EUR': 'Europe', 'LAM': 'Latin America',
  'MES': 'Middle East', 'PAC': 'Pacific', 'SAM': 'Southern America', 'SPA': 'South Pacific',
}

SECTION = {
  'AS': 'Grid MORA', 'D ': 'VHF Navaid', 'DB': 'NDB Navaid', 'EA': 'Waypoint',
  'EM': 'Airways Marker', 'EP': 'Holding Pattern', 'ER': 'Airways and Route',
  'ET': 'Preferred Route', 'EU': 'Airway Restrictions', 'EV': 'Enroute Communication',
  'HA': 'Heliport Pads', 'HC': 'Heliport Terminal Waypoint', 'HD': 'Heliport SID',
  'HE': 'Heliport STAR', 'HF': 'Heliport Approach Procedure', 'HK': 'Heliport TAA',
  'HS': 'Heliport MSA', 'HV': 'Heliport Communication', 'PA': 'Airport Reference Point',
  'PB': 'Airport Gates', 'PC': 'Airport Terminal Waypoint', 'PD': 'Airport SID',
  'PE': 'Airport STAR', 'PF': 'Airport Approach Procedure', 'PG': 'Airport Runway',
  'PI': 'Airport Localizer/Glideslope', 'PK': 'Airport TAA', 'PL': 'Airport MLS',
  'PM': 'Airport Localizer Marker', 'PN': 'Airport Terminal', 'PP': 'Airport Path',
  'PR': 'Airport Flt Planning ARR/DEP', 'PS': 'Airport MSA', 'PT': 'Airport GLS Station',
  'PV': 'Airport Communication', 'R ': 'Company Route', 'RA': 'Alternate Record',
  'TC': 'Cruising Table', 'TG': 'Geographical Reference', 'TN': 'RNAV Name Table',
  'UC': 'Controller Airspace', 'UF': 'Airspace FIR/UIR', 'UR': 'Restrictive Airspace',
}

ROUTE_ER = {
  'A': 'Airline Airway (Tailored Data)', 'C': 'Control', 'D': 'Direct Route',
  'H': 'Helicopter Airways', 'O': 'Officially Designated Airways', 'R': 'RNAV Airways',
  'S': 'Undesignated ATS Route',
}
ROUTE_ET = {
  'C': 'North American Routes for North Atlantic Traffic Common Portion',
  'D': 'Preferential Routes', 'J': 'Pacific Oceanic Transition Routes (PACOTS)',
  'M': 'RNAV Airways', 'N': 'Undesignated ATS Route',
}


def _sid():
  d = {'0': 'Engine Out SID'}
  for codes, kind in (('123', ''), ('456', 'RNAV '), ('FMS', 'FMS '), ('RNP', 'RNP ')):
    a, b, c = codes
    d[a] = f'{kind}SID Runway Transition'
    d[b] = f'{kind}SID or SID Common Route'
    d[c] = f'{kind}SID Enroute Transition'
  d['T'] = 'Vector SID Runway Transition'
  d['V'] = 'Vector SID Enroute Transition'
  return d


def _star():
  d = {}
  for codes, kind in (('123', ''), ('456', 'RNAV '), ('FMS', 'FMS '), ('RNP', 'RNP ')):
    a, b, c = codes
    d[a] = f'{kind}STAR Enroute Transition'
    d[b] = f'{kind}STAR or STAR Common Route'
    d[c] = f'{kind}STAR Runway Transition'
  d['7'] = 'Profile Descent Enroute Transition'
  d['8'] = 'Profile Descent Common Route'
  d['9'] = 'Profile Descent Runway Transition'
  return d


ROUTE_APP = {
  'A': 'Approach Transition',
  'B': 'Localizer/Backcourse Approach',
  'D': 'VORDME Approach',
  'F': 'Flight Management System (FMS) Approach',
  'G': 'Instrument Guidance System (IGS) Approach',
  'H': 'Area Navigation (RNAV) Approach with Required Navigation Performance (RNP) Approach',
  'I': 'Instrument Landing System (ILS) Approach',
  'J': 'GNSS Landing System (GLS) Approach',
  'L': 'Localizer Only (LOC) Approach',
  'M': 'Microwave Landing System (MLS) Approach',
  'N': 'Non-Directional Beacon (NDB) Approach',
  'P': 'Global Position System (GPS) Approach',
  'Q': 'Non-Directional Beacon + DME (NDB+DME) Approach',
  'R': 'Area Navigation (RNAV) Approach (Note 1)',
  'S': 'VOR Approach using VORDME/VORTAC',
  'T': 'TACAN Approach',
  'U': 'Simplified Directional Facility (SDF) Approach',
  'V': 'VOR Approach',
  'W': 'Microwave Landing System (MLS), Type A Approach',
  'X': 'Localizer Directional Aid (LDA) Approach',
  'Y': 'Microwave Landing System (MLS), Type B and C Approach',
  'Z': 'Missed Approach',
}
ROUTE = {'ER': ROUTE_ER, 'ET': ROUTE_ET, 'PD': _sid(), 'HD': _sid(), 'PE': _star(),
         'HE': _star(), 'PF': ROUTE_APP, 'HF': ROUTE_APP}

DESC = (
  {'A': 'Airport as Waypoint', 'E': 'Essential Waypoint', 'F': 'Off Airway Waypoint',
   'G': 'Runway/Helipad as Waypoint', 'H': 'Heliport as Waypoint', 'N': 'NDB Navaid as Waypoint',
   'P': 'Phantom Waypoint', 'R': 'Non-Essential Waypoint', 'T': 'Transition Essential Waypoint',
   'V': 'VHF Navaid as Waypoint'},
  {'B': 'Flyover Waypoint: End of SID/STAR Route Type, APCH Transition or Final Approach',
   'E': 'End of Enroute Airway or Terminal Procedure Route Type',
   'U': 'Uncharted Airway Intersection', 'Y': 'Fly-Over Waypoint'},
  {'A': 'Unnamed Stepdown Fix After Final Approach Fix',
   'B': 'Unnamed Stepdown Fix Before Final Approach Fix', 'C': 'ATC Compulsory Waypoint',
   'G': 'Oceanic Gateway Waypoint', 'M': 'First Leg of Missed Approach Procedure',
   'P': 'Path Point Fix', 'R': 'Fix used for turning final approach', 'S': 'Named Stepdown Fix'},
  {'A': 'Initial Approach Fix', 'B': 'Intermediate Approach Fix',
   'C': 'Initial Approach Fix with Holding',
   'D': 'Initial Approach Fix with Final Approach Course Fix', 'E': 'Final End Point Fix',
   'F': 'Published Final Approach Fix or Database Final Approach Fix', 'H': 'Holding Fix',
   'I': 'Final Approach Course Fix', 'M': 'Published Missed Approach Point Fix'},
)

LEG = {
  'IF': 'Initial Fix or IF Leg.', 'TF': 'Track to a Fix or TF Leg.',
  'CF': 'Course to a Fix or CF Leg.', 'DF': 'Direct to a Fix or DF Leg.',
  'FA': 'Fix to an Altitude or FA Leg.', 'FC': 'Track from a Fix for a Distance or FC Leg.',
  'FD': 'Track from a Fix to a DME Distance or FD Leg.',
  'FM': 'From a Fix to a Manual termination or FM Leg.',
  'CA': 'Course to an Altitude or CA Leg.', 'CD': 'Course to a DME Distance or CD Leg.',
  'CI': 'Course to an Intercept or CI Leg.', 'CR': 'Course to a Radial termination or CR Leg.',
  'RF': 'Constant Radius Arc or RF Leg.', 'AF': 'Arc to a Fix or AF Leg.',
  'VA': 'Heading to an Altitude termination or VA Leg.',
  'VD': 'Heading to a DME Distance termination or VD Leg.',
  'VI': 'Heading to an Intercept or VI Leg.', 'VM': 'Heading to a Manual termination or VM Leg.',
  'VR': 'Heading to a Radial termination or VR Leg.', 'PI': '045/180 Procedure Turn or PI Leg.',
  'HA': 'Holding pattern (Altitude Termination)',
  'HF': 'Holding pattern (Single circuit terminating at the fix)',
  'HM': 'Holding pattern (Manual Termination)',
}

WPT1 = {'C': 'Combined Named Intersection and RNAV', 'I': 'Unnamed, Charted Intersection',
        'R': 'Named Intersection', 'U': 'Uncharted Airway Intersection', 'V': 'VFR Waypoint',
        'W': 'RNAV Waypoint'}
WPT2 = {
  'A': 'Final Approach Fix', 'B': 'Initial and Final Approach Fix',
  'C': 'Final Approach Course Fix', 'D': 'Intermediate Approach Fix',
  'E': 'Off-Route intersection in FAA National Reference System', 'F': 'Off-Route Intersection',
  'I': 'Initial Approach Fix', 'K': 'Final Approach Course Fix at Initial Approach Fix',
  'L': 'Final Approach Course Fix at Intermediate Approach Fix', 'M': 'Missed Approach Fix',
  'N': 'Initial Approach Fix and Missed Approach Fix', 'O': 'Oceanic Entry/Exit Waypoint',
  'P': 'Pitch and Catch Point in the FAA High Altitude Redesign',
  'S': 'AACAA and SUA Waypoints in the FAA High Altitude Redesign',
  'U': 'FIR/UIR or Controlled Airspace Intersection',
  'V': 'Latitude/Longitude Intersection, Full Degree of Latitude',
  'W': 'Latitude/Longitude Intersection, Half Degree of Latitude',
}

APPL = {
  'A': 'Standard ARINC Continuation containing notes or other formatted data',
  'B': 'Combined Controlling Agency/Call Sign and formatted Time of Operation',
  'C': 'Call Sign/Controlling Agency Continuation', 'E': 'Primary Record Extension',
  'L': 'VHF Navaid Limitation Continuation', 'N': 'Sector Narrative Continuation',
  'T': 'Time of Operations Continuation "formatted time data"',
  'U': 'Time of Operations Continuation "Narrative time data"',
  'V': 'Time of Operations Continuation, Start/End Date',
  'P': 'Flight Planning Application Continuation',
  'Q': 'Flight Planning Application Primary Data Continuation',
  'S': 'Simulation Application Continuation',
  'W': 'Airport or Heliport Procedure Data Continuation with SBAS use authorization information',
}

COMM = {
  'ACC': 'Area Control Center', 'ACP': 'Airlift Command Post', 'AIR': 'Air to Air',
  'APP': 'Approach Control', 'ARR': 'Arrival Control',
  'ASO': 'Automatic Surface Observing System (ASOS)',
  'ATI': 'Automatic Terminal Info Service (ATIS)',
  'AWI': 'Airport Weather Information Broadcast (AWIB)',
  'AWO': 'Automatic Weather Observing Service (AWOS)',
  'AWS': 'Aerodrome Weather Information Services (AWIS)', 'CLD': 'Clearance Delivery',
  'CPT': 'Clearance, Pre-Taxi', 'CTA': 'Control Area (Terminal)', 'CTL': 'Control',
  'DEP': 'Departure Control', 'DIR': 'Director (Approach Control Radar)',
  'EFS': 'Enroute Flight Advisory Service (EFAS)', 'EMR': 'Emergency',
  'FSS': 'Flight Service Station', 'GCO': 'Ground Comm Outlet', 'GND': 'Ground Control',
  'GTE': 'Gate Control', 'HEL': 'Helicopter Frequency', 'INF': 'Information',
  'MIL': 'Military Frequency', 'MUL': 'Multicom', 'OPS': 'Operations',
  'PAL': 'Pilot Activated Lighting (Note 1)', 'RDO': 'Radio', 'RDR': 'Radar',
  'RFS': 'Remote Flight Service Station (RFSS)', 'RMP': 'Ramp/Taxi Control',
  'RSA': 'Airport Radar Service Area (ARSA)', 'TCA': 'Terminal Control Area',
  'TMA': 'Terminal Control Area', 'TML': 'Terminal', 'TRS': 'Terminal Radar Service Area (TRSA)',
  'TWE': 'Transcribe Weather Broadcast (TWEB)', 'TWR': 'Tower, Air Traffic Control',
  'UAC': 'Upper Area Control', 'UNI': 'Unicom', 'VOL': 'Volmet',
}

UNITS = {
  'H': 'High Frequency (3000 kHz - 30,000 kHz)', 'V': 'Very High Frequency (30,000 kHz - 200 MHz)',
  'U': 'Ultra High Frequency (200 MHz - 3000 MHz)',
  'C': 'Communication Channel for 8.33 kHz spacing',
}

SERVICE = {
  'A  ': 'Airport Advisory Serivce (AAS)', 'C  ': 'Community Aerodrome Radio Station (CARS)',
  'D  ': 'Departure Service (Other than Departure Control Unit)',
  'F  ': 'Flight Information Serivce (FIS)', 'I  ': 'Initial Contact (IC)',
  'L  ': 'Arrival Service (Other than Arrival Control Unit)',
  'P  ': 'Pre-Departure Clearance (Data Link Service)',
  'S  ': 'Aerodrome Flight Information Service (AFIS)',
  'T  ': 'Terminal Area Control (Other than dedicated Terminal Control Unit)',
  ' A ': 'Aerodrome Traffic Frequency (ATF)', ' C ': 'Common Traffic Advisory Frequency (CTAF)',
  ' M ': 'Mandatory Frequency (MF) ', ' R ': 'Air/Air', ' S ': 'Secondary Frequency',
  '  A': 'Air/Ground', '  D': 'VHF Direction Finding Service (VDF)',
  '  G': 'Remote Communications Air to Ground (RCAG)', '  L': 'Language other than English',
  '  M': 'Military Use Frequency', '  P': 'Pilot Controlled Light (PCL)',
  '  R': 'Remote Communications Outlet (RCO)',
}

EMISSION = {
  '3': 'Double Sideband (A3) ', 'A': 'Single sideband, reduced carrier (A3A) ',
  'B': 'Two Independent sidebands (A3B)', 'H': 'Single sideband, full carrier (A3H) ',
  'J': 'Single sideband, suppressed carrier (A3J)',
  'L': 'Lower (single) sideband, carrier unknown', 'U': 'Upper (single) sideband, carrier unknown',
}

NAMEIND = {
  'A': 'Abeam Fix', 'B': 'Bearing and Distance Fix ', 'D': 'Airport Name as Fix', 'F': 'FIR Fix',
  'H': 'Phonetic Letter Name Fix', 'I': 'Airport Ident as Fix', 'L': 'Latitude/Longitude Fix ',
  'M': 'Multiple Word Name Fix', 'N': 'Navaid Ident as Fix',
  'P': 'Published Five - Letter - Name - Fix', 'Q': 'Published Name Fix, less than five letters',
  'R': 'Published Name Fix, more than five letters', 'T': 'Airport/Rwy Related Fix (Note 2)',
  'U': 'UIR Fix',
}

UNKNOWN = '<UNKNOWN>'


def blank(v):
  return v.strip() == ''


def tenths(n):
  """n tenths, shown with one decimal, without going through floating point"""
  return f'{n // 10}.{n % 10}'


def hundredths(n):
  return f'{n // 100}.{n % 100:02d}'


def digits(v):
  return v.isascii() and v.isdigit()


def feet(v, section):
  if v.isnumeric():
    return (v.lstrip('0') or '0') + ' ft'
  return v


def feet100(v, section):
  if v.isnumeric():
    return num(v, lambda n: f'{n * 100} ft')
  return v


def num(v, fmt):
  try:
    return fmt(int(v))
  except ValueError:
    raise Bad(v)


def d002(v, s):
  if v == 'S':
    return 'Standard'
  if v == 'T':
    return 'Tailored'
  raise Bad(v)


def d004(v, s):
  return v if blank(v) else SECTION.get(v, UNKNOWN)


def d007(v, s):
  return ROUTE.get(s, {}).get(v, UNKNOWN)


def d008(v, s):
  if blank(v) or v.strip().isalnum():
    return v
  raise Bad(v)


def d010(v, s):
  return f'Approach: {v[0]}, Runway: {v[1:4]}'


SEQ = {1: 'MSA Table, TAA Table, Cruise Table',
       2: 'VHF Navaid Limitation Continuation Records',
       3: 'SID/STAR/Approach and Company Routes',
       4: 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace'}


def d012(v, s):
  n = len(v.strip())
  return f'{SEQ[n]} - Sequence No. {v}' if n in SEQ else v


def d016(v, s):
  return {'0': 'Primary Record', '1': 'Primary Record (with Cont.)'}.get(v, v + ' - Continuation')


def d017(v, s):
  return '\n'.join(t[c] for t, c in zip(DESC, v) if c in t)


def d020(v, s):
  try:
    return {'R': 'Right', 'L': 'Left', 'E': 'Either', ' ': 'Either'}[v]
  except KeyError:
    raise Bad(v)


def d021(v, s):
  w = v.strip()
  if not w:
    return ''
  if not w.isalpha():
    raise Bad(v)
  return LEG.get(w, UNKNOWN)


def d022(v, s):
  w = v.strip()
  if w and not w.isalpha():
    raise Bad(v)
  return w


def d023(v, s):
  w = v.strip()
  if w and not w.isalnum():
    raise Bad(v)
  return w


def d026(v, s):
  w = v.strip()
  if not w:
    return ''
  if not w.isalnum():
    raise Bad(v)
  if w.endswith('T'):
    return w
  if digits(w):
    return tenths(int(w))
  return fl(w, '{:.1f}', 10)


def fl(w, fmt, div):
  try:
    return fmt.format(float(w) / div)
  except ValueError:
    raise Bad(w)


def d027(v, s):
  w = v.strip()
  if not w:
    return ''
  unit = 'nm'
  if w[0] == 'T':
    unit, w = 'min', w[1:]
  if digits(w):
    return f'{tenths(int(w))} {unit}'
  return fl(w, '{:.1f} ' + unit, 10)


def d032(v, s):
  yy = num(v[:2], int)
  return f'{"19" if yy > 50 else "20"}{v[:2]}, Release {v[2:]}'


NDB = ('DB', 'PN', 'PM')


def d034(v, s):
  w = v.strip()
  if not w:
    return ''
  if not w.isnumeric():
    raise Bad(v)
  if digits(w):
    return tenths(int(w)) if s in NDB else hundredths(int(w))
  return fl(w, '{:.1f}', 10) if s in NDB else fl(w, '{:.2f}', 100)


def d039(v, s):
  if blank(v):
    return v
  return num(v[1:], lambda n: f'{n:03d} {v[0]}')


def d042(v, s):
  if v[0] in WPT1:
    return WPT1[v[0]]
  if v[0] == 'N':
    return 'NDB Navaid as Waypoint' + v[1:]
  return WPT2.get(v[1], 'Unknown Waypoint Type')


def d045(v, s):
  if not v.isnumeric():
    return 'BAD VALUE'
  return hundredths(int(v)) if digits(v) else fl(v, '{:.2f}', 100)


def d049(v, s):
  return {'@': 'Beyond stop end of runway', '+': 'Ahead of approach end of runway',
          '-': 'To the side of runway'}.get(v, v)


def d062(v, s):
  if not v.isnumeric():
    return 'BAD VALUE'
  return tenths(int(v)) if digits(v) else fl(v, '{}', 10)


def d065(v, s):
  if blank(v):
    return v
  try:
    return f'{int(v[0])}m {int(v[1]) * 6}s'
  except ValueError:
    return f'Invalid Value: "{v}"'


def d072(v, s):
  if v.isnumeric():
    return v + ' knots (IAS)'
  if blank(v):
    return v
  raise Bad(v)


def d082(v, s):
  by2 = {'B': 'HI and LO Altitude', 'H': 'HI Altitude', 'L': 'LO Altitude', ' ': 'Terminal Use Only'}
  if v[1] in by2:
    return by2[v[1]]
  if v[0] == 'R':
    return 'RNAV'
  raise Bad(v)


def d091(v, s):
  return APPL.get(v, 'Unknown Application Type: ' + v)


def d106(v, s):
  return v if blank(v) else SERVICE.get(v, UNKNOWN)


def d108(v, s):
  try:
    return {'Y': 'Official', 'N': 'Non-official'}[v]
  except KeyError:
    raise Bad(v)


def d118(v, s):
  t = {'C': 'Circle', 'G': 'Great Circle', 'H': 'Rhumb Line', 'L': 'Counter Clockwise ARC',
       'R': 'Clockwise ARC'}
  if v[0] not in t:
    return f'Unsupported Value: "{v}"'
  return t[v[0]] + (', End of description, return to origin point' if v[1] == 'E' else '')


def d177(v, s):
  return {'C': 'Public / Civil', 'M': 'Military',
          'P': 'Private (not open to public)'}.get(v, f'Unsupported Value: "{v}"')


def d178(v, s):
  if v[0].isalpha() and v[1:].isnumeric():
    east, west = 'ABCDEFGHIKLM', 'NOPQRSTUVWXY'
    if v[0] == 'Z':
      return 'GMT +0:' + v[1:]
    if v[0] in east:
      return f'GMT -{east.index(v[0]) + 1}:{v[1:]}'
    if v[0] in west:
      return f'GMT +{west.index(v[0]) + 1}:{v[1:]}'
  return f'Unsupported Value: "{v}"'


def d179(v, s):
  return {'Y': 'Yes', 'N': 'No'}.get(v, f'Unsupported Value: "{v}"')


def d182(v, s):
  try:
    return {'G': 'Guard (radio receives on this freq)',
            'T': 'Transmit (radio transmits on this freq)', ' ': 'Guards and Transmits'}[v]
  except KeyError:
    raise Bad(v)


def d196(v, s):
  if v[0] in NAMEIND:
    return NAMEIND[v[0]]
  return {'O': 'Localizer Marker with officially published five - letter identifier',
          'M': 'Localizer Marker without officially published five - letter identifier',
          }.get(v[1], 'Unknown Name Format Indicator')


def d199(v, s):
  return v if blank(v) else EMISSION.get(v, UNKNOWN)


def d269(v, s):
  if blank(v):
    return v
  if digits(v):
    return tenths(int(v))
  return fl(v, '{}', 10)


def d270(v, s):
  try:
    return {'I': 'ILS or MLS Glideslope', 'R': 'RNAV Procedure',
            'V': 'Visual Glideslope Indicator (VGSI)', 'D': 'Default Value (40 or 50 feet)',
            ' ': ' '}[v]
  except KeyError:
    raise Bad(v)


def table(t, default):
  return lambda v, s: t.get(v, default(v) if callable(default) else default)


same = lambda v: v

CODED = {
  '002': d002, '003': table(AREA, UNKNOWN), '004': d004, '007': d007, '016': d016, '017': d017,
  '020': d020, '021': d021, '042': d042, '049': d049, '082': d082, '091': d091,
  '101': table(COMM, UNKNOWN), '102': table({'R': 'Radar Capabilities', 'N': 'No Radar Capabilities'}, same),
  '104': table(UNITS, UNKNOWN), '106': d106, '108': d108,
  '112': table({'E': 'Elliptical', 'B': 'Bone'}, same),
  '113': table({'H': 'High Power (general use)', 'L': 'Low Power (low altitude use)'}, same),
  '117': table({'F': 'FIR', 'U': 'UIR', 'B': 'Combined FIR/UIR'}, same),
  '118': d118, '165': table({'M': 'Magnetic', 'T': 'True'}, same), '177': d177, '179': d179,
  '181': table({'Y': '24-Hour Availability', 'N': 'Part-time Availability'}, UNKNOWN),
  '182': d182, '196': d196,
  '198': table({'A': 'Amplitude Modulated', 'F': 'Frequency Modulated'}, UNKNOWN),
  '199': d199, '270': d270,
}
NUMERIC = {
  '012': d012, '026': d026, '027': d027, '029': feet, '030': feet, '032': d032, '034': d034,
  '039': d039, '045': d045, '048': feet, '050': feet, '053': feet, '054': feet100, '062': d062,
  '065': d065, '072': d072, '073': feet, '086': feet, '092': feet, '103': d045,
  '127': feet, '135': d062, '147': feet100, '161': feet, '178': d178, '184': feet, '209': feet,
  '240': feet, '269': d269, '010': d010,
}
# validated but shown as they stand (surrounding blanks may go)
CHECKED = {'008': d008, '022': d022, '023': d023, '024': d023, '025': d023, '043': lambda v, s: v.strip()}
DECODERS = {**CODED, **NUMERIC, **CHECKED}

# fields whose decoding may print a diagnostic besides the table
NOISY = {'065', '118'}


def kind(para):
  if para in CODED:
    return 'coded'
  if para in NUMERIC:
    return 'numeric'
  return 'verbatim'


def decode_field(field, value, section):
  """the text the Decoded column must show; raises Bad when it must be refused"""
  f = DECODERS.get(field.para)
  return value if f is None else f(value, section)


# fields whose current decoding is a recorded finding: (paragraph, name prefix) ->
# finding id and the repaired text, which is accepted as well as the present one
def alternatives(field, value, section):
  if field.para in ('161', '240') and value.isnumeric():
    return (f'{int(value) * 100} ft',) if digits(value) else ()
  if field.name.startswith('Apch Route Qualifier'):
    return (value,)
  return ()


def finding(field):
  if field.para == '161':
    return 'restriction-altitude-units'
  if field.para == '240':
    return 'flight-planning-altitude-hundreds'
  if field.name.startswith('Apch Route Qualifier'):
    return 'approach-route-qualifier'
  return None


def undecodable(acc):
  """recorded finding: NDB 'Q' continuations hold the application type where the
  layout has the frequency, so decoding always refuses them"""
  return acc.layout_name == 'DB.P' and not acc.primary


def decode(acc):
  """[(name, value, decoded)] or raises Bad"""
  return [(f.name, v, decode_field(f, v, acc.section))
          for f in acc.layout for v in (f.value(acc.line),)]
