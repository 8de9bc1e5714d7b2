"""Writes KNOWN_FINDINGS (run by hand; the checks only read the file)."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {"e406c17": "C14", "0aaa707": "C14", "4227d01": "C14", "ceb6ed6": "C13", "e59414e": "C25", "3d4ae83": "C13", "8c986eb": "C13",
     "57f91e4": "C12", "db12f57": "C15", "dafc661": "C12", "9a88f5c": "C17", "f755f04": "C24", "49da1bd": "C24", "c7487ff": "C02",
     "df4f232": "C01", "91385bf": "C02", "17ce5bd": "C01", "a7034b1": "C16", "7a641e2": "C16", "6cd3fc5": "C02", "da1423c": "C02",
     "8b9f1de": "C02", "bed61b3": "C16", "3bfa2d9": "C16", "fe22332": "C01", "f0d979a": "C01", "77fa71d": "C01", "4c41310": "C02",
     "c45a18a": "C25", "ec3f6f5": "C02", "dbc96ac": "C11", "0d4c2d3": "C10", "57e30df": "C04", "2f7a0d1": "C23", "aee91cb": "C23",
     "2fb2cec": "C20", "b9307fc": "C10", "2438e6f": "C24", "6df412f": "C22"}
FINDINGS = [
    ("C01", "ReceiverPdu:standard-size:28", "ReceiverPdu is 28 octets, 8 short of IEEE 1278.1 7.7.4: it carries no radio reference ID and radio number"),
    ("C01", "EntityDamageStatusPdu:standard-size:36", "EntityDamageStatusPdu is 36 octets without records, 12 more than IEEE 1278.1 7.3.5: it carries firing and target entity IDs"),
    ("C01", "IntercomControlPdu:standard-size:38", "IntercomControlPdu is 38 octets without parameters, 2 short of IEEE 1278.1 7.7.6: it carries no master channel ID"),
    ("C02", "UaPdu:shaftRPMs:NameError", "UaPdu with records in shaftRPMs serializes but parse raises NameError (no class for the elements)"),
    ("C02", "UaPdu:apaData:NameError", "UaPdu with records in apaData serializes but parse raises NameError (no class for the elements)"),
    ("C02", "UaPdu:emitterSystems:NameError", "UaPdu with records in emitterSystems serializes but parse raises NameError (no class for the elements)"),
]
out = ["# finding: property=<id> where=<the violation's identity> <what fails>     (recorded, not repaired)",
       "# fixed: property=<id> <commit> <what failed>                              (repaired in /repo; suppresses nothing)"]
out += ["finding: property=%s where=%s %s" % f for f in FINDINGS]
EXTRA = {"49da1bd": "8-bit enumerations above 127 in DesignatorPdu and UaPdu were refused or came back negative",
         "df4f232": "EventReportReliablePdu.eventType was written in the wrong width",
         "91385bf": "StorageFuelReload reload times above 255 were refused",
         "17ce5bd": "PduHeader wrote its length in 8 bits and its status in 16",
         "a7034b1": "EventReportPdu gave no access to its datum records", "77fa71d": "SilentAggregateSystem dropped its aggregateType",
         "6df412f": "rotate_3x3 refused the 3x1 axis of its own documented example",
         "2f7a0d1": "latitudes from 80 to 84 N were given band Z", "aee91cb": "longitude 180 was given zone 61", "b9307fc": "a second parse into a DirectedEnergyAreaAimpoint appended to the records of the first"}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01", "4bb5abf..HEAD"], text=True)
for l in log.split("\x01"):
    if not l.strip():
        continue
    h, s, b = l.strip().split("\0")
    if s.startswith("fix: ") and h[:7] in P:
        what = EXTRA.get(h[:7]) or " ".join(b.split()) or "the opposite of: " + s[5:]
        out.append("fixed: property=%s %s %s" % (P[h[:7]], h, what))
open(os.path.join(ROOT, "KNOWN_FINDINGS"), "w").write("\n".join(out) + "\n")
