#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the wording can be diffed)."""
import json, os
D7, ST, FA = "opendis/dis7.py", "opendis/stream.py", "opendis/PduFactory.py"
RC, BF, RB, RR, RW = ("opendis/record/common.py", "opendis/record/bitfield.py", "opendis/record/base.py",
                      "opendis/record/radio/__init__.py", "opendis/record/warfare/__init__.py")
RI, DR, GC = "opendis/record/__init__.py", "opendis/DeadReckoning.py", "opendis/RangeCoordinates.py"
CODEC = [D7, RC, RR, RW, RB, BF, ST]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(obs), hook_needed=None)))

p("C01", "Every PDU and record serializes to its DIS 7 octet layout",
  "For every PDU and record class and every assignment of representable field values and lists, serialize() writes exactly the octets of the class's DIS 7 layout: the fields in layout order, each at its fixed width, most significant octet first, floats as IEEE 754. Count and length fields that describe a list or a variable part always carry the value derived from the actual contents, constant fields (record type numbers) carry their constant, and padding fields carry the value of their attribute. The PDU header's own length field is written as the attribute holds it.",
  ["inputs"], "all ~190 classes with a wire format x all field values and list sizes representable in the layout",
  "The 15 tests decode five captured files and encode two; about 180 of the classes are never serialized by any test, and a sampled value cannot show that width, sign, order and endianness are right for all values.",
  CODEC, [("serialize() of every class", D7), ("record serialize()", RR), ("struct formats", ST)],
  obs=["serialize(DataOutputStream(BytesIO))"])
p("C02", "Parsing what was serialized restores every field",
  "For every PDU and record class and every representable object, parsing its serialized octets into a fresh object of the class gives an object whose every field, nested record and list element equals the original (32-bit floats after rounding to 32 bits). This includes padding fields, flag fields, variable-size parts and lists of any length. The only values not carried are those the layout has no room for (bits beyond a record's defined flag bit, an empty variable part versus an absent one).",
  ["inputs"], "all classes x all representable field values x all list sizes and element kinds",
  "Tests round-trip two sample PDUs; a field that is skipped, swapped, sign-mangled or read at the wrong width only for some values or list lengths shows up only for those inputs.",
  CODEC, [("parse()/serialize() pairs", D7), ("stream primitives", ST)], obs=["attributes after parse()"])
p("C03", "Re-serializing a parsed PDU reproduces the received octets",
  "For every octet string that a PDU or record class accepts as one complete encoding, parsing it and serializing the result gives the same octets again, whatever values the fields hold. This is what lets a gateway relay traffic without altering it. Excepted are only octets the standard defines as ignorable filler (zero padding after a variable datum or area aimpoint, the emission system's spare octets, unused beam status bits) and NaN float patterns.",
  ["inputs"], "all well-formed octet strings of every class, including values no constructor call would produce",
  "The tests re-serialize only two captured messages; arbitrary field contents on the wire (high bits set, negative floats, unusual types, reserved bits) are never tried.",
  CODEC, [("parse then serialize", D7)], obs=["serialize(parse(bytes))"])
p("C04", "The PDU type octet alone selects the decoder",
  "createPdu, getPdu and createPduFromFilePath choose the decoder by the third octet only: every supported PDU type number yields an object of that type's class with that class's type number and family as defaults, and all entry points give equal results for equal octets. A type number that is not supported yields None, whatever the rest of the data is, and neither version, exercise, family nor any other octet influences the choice. Decoding through the factory gives the same object as parsing with the class directly.",
  ["inputs"], "all 256 type octets x all values of the other header octets x all bodies",
  "Tests use five type numbers with one file each; the other ~50 entries and ~200 unsupported numbers are never dispatched.",
  [FA, D7], [("PduTypeDecoders / getPdu", FA), ("class pduType constants", D7)], obs=["type(createPdu(data))"])
p("C05", "Truncated data is rejected, never decoded",
  "If the octets supplied end before the layout of the PDU or record is complete - at whatever point, inside a scalar, between records, inside a list or a variable-length part, or before the header ends - decoding raises an exception. It never returns an object built from missing octets. The same holds for every stream read primitive.",
  ["crash_points", "inputs"], "every class x every list shape x every proper prefix of the encoding",
  "No test feeds incomplete data; cut points inside variable-length parts behave differently from cut points inside fixed fields.",
  CODEC + [FA], [("struct.unpack on short reads, read_bytes length check", ST), ("count-driven loops", D7)], obs=["exception or object from createPdu(prefix)"])
p("C06", "Decoding consumes exactly the PDU's octets and ignores what follows",
  "Parsing a PDU or record from a stream advances the stream by exactly the number of octets of that encoding, so that consecutive encodings in one stream decode one after another into the same objects as when decoded separately. Octets after the end of a PDU never change what is decoded. serialize likewise appends exactly the encoding at the current position.",
  ["inputs", "histories"], "all classes x all list shapes x all following octets x all sequences of encodings in one stream",
  "Tests hold exactly one PDU per buffer, so over- or under-reading at the end of a message is invisible to them.",
  CODEC, [("parse() reading exactly the declared parts", D7)], obs=["stream.tell() after parse()", "equality with the separately decoded object"])
p("C07", "Count and length fields always describe the lists actually carried",
  "Whatever sequence of list edits preceded it, a serialized PDU or record declares in each count or length field exactly the number of elements, octets or bits it then writes, and the public count properties report the same number. Decoding yields exactly the declared number of elements. A list too long for its count field makes serialize raise an exception instead of writing a wrapped or clipped count.",
  ["inputs", "histories"], "all list-bearing classes x all list lengths up to and beyond the capacity of the count field x all edit histories",
  "Tests only decode lists of 0 to 3 elements and never edit a list after construction or reach a capacity limit.",
  [D7, RR, RW], [("count properties", D7), ("struct range check", ST)], obs=["count octets", "len() of decoded lists", "count property values"])
p("C08", "Objects never share state",
  "Changing, parsing into or serializing one PDU or record object never changes another object that was constructed or decoded separately - not its fields, its nested records, its lists or the elements of its lists - even if both came from the same octets, the same class or default constructor arguments. Parses of different streams may be interleaved (one decoding starting in the middle of another) without affecting either result.",
  ["histories", "schedules"], "all classes x all interleavings of construct, set, append, parse, decode and serialize on several live objects",
  "Tests create one object each; mutable default arguments, class-level lists or caches only show when two objects live at once.",
  CODEC + [FA], [("`x or Default()` per-instance construction", D7)], obs=["projection of every live object after every operation"])
p("C09", "Serializing is pure: it changes nothing and repeats exactly",
  "serialize() never changes the object it is applied to, and serializing the same unchanged object again - at any later time, to any other stream, after serializing other objects - gives identical octets. Output is only appended at the stream's current position; octets already in the stream stay as they were. Reading a count property or marshalled size changes nothing either.",
  ["histories", "inputs"], "all classes x all field values x all histories of other operations in between",
  "Tests serialize an object at most once.",
  CODEC, [("serialize()", D7)], obs=["octets of repeated serialize()", "projection before and after"])
p("C10", "Decoding depends only on the octets, not on what was decoded before",
  "Parsing octets into an object that already held other contents gives the same result as parsing them into a fresh object, and decoding a message through the factory gives the same result however many messages - valid, duplicated, reordered, truncated or unknown - were decoded before it in the process. A failed decode leaves later decodes unaffected.",
  ["histories", "fault_sequences"], "all classes x all sequences of previously decoded messages including failing ones",
  "Each test decodes one message into one fresh object in one process.",
  CODEC + [FA], [("parse() replacing list contents", D7), ("getPdu creating a fresh object", FA)], obs=["projection after parse()"])
p("C11", "Variable datum values survive exactly, bit length and padding included",
  "A variable datum with any identifier, any bit length n and ceil(n/8) value octets is written as identifier, n, the value octets and zero octets up to the next 64-bit boundary after the value; parsing gives back identifier, n and the value octets, and leaves the stream at that boundary. Several variable and fixed datums in one PDU never run into each other, in every PDU that carries datums.",
  ["inputs"], "all bit lengths (0, partial octets, every residue mod 64, long values) x all values x all numbers of datums x all 15 datum-carrying PDUs",
  "Tests decode one captured message with datums of two lengths; the padding rule depends on the bit length modulo 64.",
  [D7], [("VariableDatum padding", D7), ("DatumSpecification", D7)], obs=["octets", "stream position", "decoded value"])
p("C12", "Transmitter PDU variable parts honour type fields and declared lengths",
  "A Transmitter PDU writes its modulation parameters, antenna pattern and variable transmitter parameter records in that order and declares their actual octet lengths and count. Decoding takes exactly the declared octets for each part and interprets them as the record the radio system, major modulation and antenna pattern type select - or keeps them unchanged as an unknown record when none applies or the declared length is not that record's length - so that re-serializing gives the same octets and each later part starts where the previous one ended. A declared length of zero means the part is absent.",
  ["inputs"], "all combinations of radio system, modulation, antenna type, declared lengths and parameter records",
  "One test round-trips one Transmitter PDU; other selector/length combinations take other branches.",
  [D7, RR, RI], [("TransmitterPdu.parse selection", D7), ("marshalledSize of radio records", RR)], obs=["classes and octets of the decoded parts"])
p("C13", "Standard variable records are framed by their declared type and length",
  "Wherever a PDU carries standard variable records, each record is written as its 32-bit type, its 16-bit total length in octets and then its body, with a length that equals the octets actually written and, for the defined records, is a multiple of 8. On decoding, a known type yields the matching record and an unknown type yields a placeholder that keeps and re-serializes the exact body; in both cases the next record starts where the declared length ends. A record type that may not occur in that PDU, a length that is not a multiple of 8 or too short is rejected with an exception.",
  ["inputs"], "all record types (known, unknown, misplaced) x all declared lengths x all sequences of records x the 3 carrying PDUs and the standard variable specification",
  "No test contains a standard variable record.",
  [D7, RI, RB, RR, RW], [("parseStandardVariableRecord", D7), ("getStandardVariableClass", RI), ("StandardVariableRecord header", RB)], obs=["record classes, octets, stream position"])
p("C14", "Stream primitives are exact inverses with network byte order",
  "For every value of its type, each write primitive emits exactly the big-endian two's-complement, IEEE 754 or character encoding of the documented width, and the matching read primitive returns that value and consumes exactly those octets. A value outside the type's range raises an exception and a read past the end of the stream raises an exception. Writes and reads of different primitives in any order on one stream never disturb each other.",
  ["inputs", "histories"], "all primitives x all values x all sequences of operations",
  "Streams are only exercised indirectly through five sample messages; signed/unsigned 64-bit, char, utf and boolean operations are never run.",
  [ST, "opendis/types.py"], [("struct formats", ST)], obs=["octets and returned values"])
p("C15", "Bit fields pack most significant bit first and round-trip independently",
  "A bit field structure built from any list of named fields totalling 8, 16 or 32 bits stores the first field in the most significant bits, in order, without gaps, big-endian, and parsing the octets gives back every field; changing one field changes no other. Invalid definitions (a total that is zero, over 32 or not a multiple of 8 bits, a field under 1 or over 32 bits, an unknown kind) are rejected when the structure is defined. The spread-spectrum, net identifier and directed-energy flag records follow the same rule for their published bits.",
  ["inputs", "programs"], "all partitions of 8/16/32 bits into fields x all field values",
  "One test covers one of the library's three bit field layouts with a few values.",
  [BF, RR, "opendis/record/warfare/enums.py"], [("bitfield() factory", BF)], obs=["bytes(struct)", "attributes after parse"])
p("C16", "Constructors keep what they are given and default to a valid empty PDU",
  "Every constructor argument of every class is stored so that it is what gets serialized, and an omitted argument means zero, an empty list or a default record (the few documented non-zero defaults excepted). Every PDU constructed without arguments carries protocol version 7 and its own class's PDU type and protocol family, serializes without error, and decodes through the factory or its class to an equal object. Constructing is free of side effects on the arguments.",
  ["inputs", "configurations"], "all classes x all subsets of constructor arguments x all argument values",
  "Tests construct three classes with default arguments.",
  [D7, RC, RR, RW], [("__init__ of every class", D7)], obs=["attributes and octets after construction"])
p("C17", "Entity marking text fits exactly 11 characters",
  "Setting an entity marking from any text of Latin-1 characters stores the first 11 characters, one octet each, replaces everything that was there before and fills the rest with zero octets, so the marking always occupies 12 octets on the wire and never shifts the fields after it. Reading back an ASCII text without NUL gives its first 11 characters. The character set octet is independent of the text.",
  ["inputs", "histories"], "all texts of every length x all previous markings",
  "No test sets a marking; only one captured marking is read.",
  [D7], [("EntityMarking.setString", D7)], obs=["characters", "charactersString()", "octets of the entity state PDU"])
p("C18", "Dead reckoning position follows the algorithm's published equation",
  "For each of the nine dead reckoning algorithms and all finite inputs the returned position equals P0 + V0*dt, plus A0*dt^2/2 exactly in the algorithms that take an acceleration, with the displacement rotated from body to world axes by the initial orientation (yaw, then pitch, then roll) exactly in the body-axis algorithms, up to floating point rounding; the static algorithm returns the position unchanged. The position never depends on the angular velocity. Zero dt (or zero velocity and acceleration) returns the initial position.",
  ["inputs"], "all nine algorithms x all positions, velocities, accelerations, orientations and dt (negative and large included)",
  "Nine tests check one point each, mostly with axis-aligned inputs where many wrong formulas agree.",
  [DR], [("drm_* functions", DR)], obs=["returned position"])
p("C19", "Dead reckoning orientation follows Euler kinematics; inputs stay untouched",
  "The fixed-orientation algorithms return the initial orientation unchanged; the rotating ones add dt times the Euler-angle rates given by the standard kinematic equations for body angular velocity, with yaw rate taken as zero and the tangent term dropped at gimbal lock. No algorithm ever modifies the position, velocity, acceleration, orientation or angular velocity passed in, returns an array shared with them, or distinguishes lists, tuples and arrays. The rotation matrix is orthonormal with the documented axis order, and the angular velocity matrix is the cross product matrix.",
  ["inputs", "histories"], "all algorithms x all orientations including gimbal lock x all rates x all input container kinds",
  "One test checks a pure yaw rate at zero attitude; coupling terms vanish there.",
  [DR], [("drm_rpw Euler rates", DR), ("get_rotation_matrix", DR)], obs=["returned orientation", "inputs after the call"])
p("C20", "Geodetic and ECEF coordinates convert by WGS84 and invert each other",
  "Converting latitude, longitude and altitude to ECEF gives the WGS84 ellipsoid point to well under a millimetre, and converting ECEF to geodetic gives the coordinates that map back to the same point to under a millimetre (latitude in [-90,90], longitude in (-180,180]), for every point from 100 km below to 100000 km above the ellipsoid, in every quadrant, on the equator, at the date line and up to the poles. At an exact pole the latitude is +-90, and the Earth's centre is rejected. The geocentric form subtracts exactly the ECEF position of the given origin.",
  ["inputs"], "all geodetic positions and all ECEF points in range",
  "One test checks one or two positions at mid latitude.",
  [GC], [("GPS.lla2ecef / ecef2lla / lla2gcc", GC)], obs=["returned coordinates"])
p("C21", "Local north-east-down, range and bearing conversions are exact rigid motions",
  "Converting ECEF to north-east-down about an origin is the rotation fixed by the origin's geodetic latitude and longitude applied to the difference, so it preserves distance, maps the origin to zero, and inverts the reverse conversion to under a millimetre. Range, azimuth (clockwise from north) and elevation (positive up) describe the same vector. The distance function is Euclidean distance, with or without a reference point, and degree/radian conversions are exact inverses up to rounding.",
  ["inputs"], "all origins (all quadrants, near poles) x all offsets",
  "No test calls these functions.",
  [GC], [("ecef2ned / ned2ecef / ned2pae / ecef2pae / ecefvec2nedvec", GC)], obs=["returned vectors"])
p("C22", "Roll/pitch/yaw and DIS Euler angles describe the same attitude",
  "For every position and attitude, converting geodetic position with roll, pitch and yaw to DIS ECEF coordinates and Euler angles, or back, yields angles whose body axes point the same way in space as those given: the direction cosine matrices agree. Converting there and back gives the same position and the same attitude. The axis rotation helper is the right-handed rotation about the given unit axis.",
  ["inputs"], "all positions x all attitudes",
  "One test file samples a few attitudes at one position.",
  [GC], [("llarpy2ecef / ecef2llarpy / rotate_3x3", GC)], obs=["returned angles as direction cosines"])
p("C23", "UTM conversion gives the right zone, band, coordinates and scale",
  "For every latitude from 80 S up to 84 N and every longitude the UTM zone number and latitude band letter are those of the UTM grid, including the Norway and Svalbard exceptions and the 180th meridian; outside those latitudes the band is Z. Easting, northing (negative south of the equator) and scale factor follow the transverse Mercator series of Snyder for that zone's central meridian, and altitude is passed through. Conversion from ECEF equals conversion from the corresponding geodetic position.",
  ["inputs"], "all latitudes and longitudes including every zone and band boundary",
  "No test calls these functions.",
  [GC], [("lla2utm / utmLetterDesignator / ecef2utm", GC)], obs=["returned coordinates and info"])
p("C24", "A value that does not fit its field is refused, never wrapped or clipped",
  "If any integer field of a PDU or record, at any nesting depth, holds a value outside the range of its width and sign, or a non-integer, serialize raises an exception instead of writing altered octets; a 32-bit float field beyond the single precision range is refused as well. Every value inside the range is accepted. Single-bit and multi-bit flag fields smaller than an octet are not covered.",
  ["inputs"], "all integer and float fields of all classes x all out-of-range values and the exact range limits",
  "No test assigns an out-of-range value.",
  CODEC, [("struct range checks", ST)], obs=["exception or octets from serialize()"])
p("C25", "Reported marshalled sizes equal the octets written",
  "For every record that reports its marshalled size, and for every content of its variable parts, the reported size equals the number of octets serialize() writes at that moment, and the length fields of the PDUs that rely on it are right. For variable records the same number, given as the declared length, is what parse needs to restore the record.",
  ["inputs", "histories"], "all record classes that report a size x all contents x sizes re-read after edits",
  "Tests never read a marshalled size.",
  [RC, RR, RW, RB, RI], [("marshalledSize()", RR)], obs=["marshalledSize() vs octets"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
