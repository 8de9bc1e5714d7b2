REPLAY = "TLA+ codec specification model-checked with TLC; its behaviours replayed into the implementation"
JUDGE = REPLAY + ", recorded executions judged by TLC"
SESSION = ("TLA+ specification of a program holding several objects, model-checked with TLC; its histories replayed with real objects "
           "of every class, decodes and writes overlapping")
COMMON = ("Exhaustive in the specification for the classes, shapes and octet patterns of Gen.tla; the implementation is compared on every "
          "behaviour of the specification plus field sweeps and seeded random objects. Trusts TLC and the binding in harness/bind.py. ")
GEO = ("Inputs are seeded random ones and special ones over the stated ranges; the judgement itself is arithmetic in the specification, right to 1e-17. "
       "Trusts TLC, and Python's fractions for reading doubles. ")
GEOJ = "TLA+ specification of the WGS84 frames over twenty-decimal numbers; recorded calls judged by TLC"
TABLE = {
    "C01": (JUDGE, COMMON + "Every field of every class is swept one at a time (all 256 values of octets, boundaries and random values otherwise)."),
    "C02": (JUDGE, COMMON + "NaN payloads excluded."),
    "C03": (JUDGE, COMMON + "Octet strings: encodings with any one field replaced, and mutated encodings whose acceptance TLC decides. NaN payloads excluded."),
    "C04": ("TLA+ specification of the factory model-checked with TLC over all 256 type octets; its answers compared with the three entry points, "
            "mutated datagrams judged by TLC", COMMON + "All 256 type numbers under several headers, with complete, overlong, cut and missing bodies."),
    "C05": (JUDGE, COMMON + "Every proper prefix of every behaviour's octets (around field boundaries only for those over 600 octets in the quick tier)."),
    "C06": (JUDGE, COMMON + "Streams hold up to 20 encodings of any classes."),
    "C07": (JUDGE, COMMON + "List lengths up to the capacity of 8 and 16 bit counts and beyond it; 32-bit counts to 8193 (20000 thorough)."),
    "C09": (REPLAY, COMMON),
    "C08": (SESSION, COMMON + "Histories: every one of up to 3 operations on two objects of each class, and random ones of 24 operations on three objects."),
    "C10": (SESSION, COMMON + "As C08, and every object decoded into ones that hold other contents or the remains of a failed decode."),
    "C24": (REPLAY, COMMON + "Every integer and float field of every class at every nesting depth, set out of range in turn."),
    "C14": ("TLA+ specification of octet streams and their primitives, model-checked with TLC; its values and histories replayed, recorded "
            "uses of real streams judged by TLC", "Every one and two octet pattern, boundary patterns of the wider ones; random histories of writes, "
            "reads, failures and repositionings. Trusts TLC and Python's integers and struct for reading values off octets."),
    "C15": ("TLA+ specification of bit field structures, model-checked with TLC; its definitions, values and histories replayed",
            "Every partition of 8 bits and chosen ones of 16, 24 and 32; all values of small fields, boundary values of wider ones."),
    "C17": ("TLA+ specification of the entity marking, model-checked with TLC; its texts and histories replayed",
            "Texts of 0 to 40 characters, every Latin-1 character in every position; histories of settings and decodings in markings and PDUs."),
    "C11": ("TLA+ specification of messages of datums, model-checked with TLC; its messages and editing histories replayed",
            COMMON + "Every bit length to 200 (700 thorough), two datums of every length to 66 (200) and chosen ones in every PDU that carries datums."),
    "C12": ("TLA+ specification of Transmitter PDUs received and edited, model-checked with TLC; its behaviours replayed",
            COMMON + "Type fields, declared lengths and record lists combined as in Transmit.tla; editing histories of the variable parts."),
    "C13": ("TLA+ specification of framed records, model-checked with TLC; its frames, sizes and editing histories replayed",
            COMMON + "Known, unknown and misplaced types under right and wrong declared lengths, first, between and last, in every PDU that carries records."),
    "C16": ("TLA+ specification of construction, model-checked with TLC; every construction replayed by keywords, in order and reversed",
            COMMON + "No, one, all but one, the first n, every other and all arguments (every two, thorough) of every class."),
    "C25": ("TLA+ specification of objects under edit, model-checked with TLC; its objects and histories replayed, sizes compared after every step",
            COMMON + "Every record reachable in every object of the specification, after every step of random editing histories; sizes around 65535."),
    "C18": ("TLA+ specification of dead reckoning over twenty-decimal numbers; recorded calls judged by TLC, integer histories replayed", GEO +
            "Histories of up to 12 calls, feedbacks and in-place changes on quarter-turn attitudes."),
    "C19": ("TLA+ specification of dead reckoning over twenty-decimal numbers; recorded calls judged by TLC, histories of shared arrays replayed", GEO +
            "Pitches between 4e-7 and 2.5e-6 radians from the vertical (the edge of gimbal lock) are not tried."),
    "C20": (GEOJ, GEO + "Negative zeros and altitudes outside -100 km to 100000 km are not tried; at the exact poles the altitude is compared to the centimetre."),
    "C21": (GEOJ, GEO + "Offsets to 10000 km."),
    "C22": (GEOJ, GEO + "Attitudes compared as direction cosines to 1e-9; quarter-turn combinations, random ones and ones near gimbal lock."),
    "C23": (GEOJ + "; the grid of zones and bands model-checked and replayed cell by cell", GEO +
            "Every half-degree cell at four points; latitude exactly 84 only for its band."),
}
NOT_APPLICABLE = {}
