----------------------------- MODULE Layouts -----------------------------
(***************************************************************************)
(* The DIS 7 (IEEE 1278.1-2012) octet layouts of the PDUs and records of   *)
(* open-dis-python, as data.  A class is a sequence of items; an object of *)
(* the class is a tuple with one component per item:                       *)
(*   u i f  fixed-width scalar: its octets, most significant first         *)
(*   a      fixed array of w octets                                        *)
(*   rec    nested record of class t: that record's tuple                  *)
(*   cnt    count of list l, mul*Len+add: derived, <<>> in the object      *)
(*   plen   octet length of the variable part l: derived, <<>>             *)
(*   list   sequence of records of class t                                 *)
(*   lu     sequence of plain unsigned values of w octets                  *)
(*   sv     sequence of standard variable records of family t              *)
(*   mod ant  variable part: <<>> if absent, else <<class, tuple>>         *)
(*   vdat   bit length (32 bits), then the value padded to 64 bits         *)
(*   bits   named bit fields, most significant first                       *)
(*   flag   one octet of which only bit 0 is defined                       *)
(*   z      w spare octets, written zero and ignored                       *)
(*   rest   all octets of the declared length                              *)
(*   align  zero octets up to a multiple of 8 (m octets precede the items) *)
(* n is the public attribute that carries the value ("" if none); d is the *)
(* default of a newly constructed object (<<>> means zero).                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences

LOCAL It(k, n, w, t, l, m, a, d) ==
    [k |-> k, n |-> n, w |-> w, t |-> t, l |-> l, m |-> m, a |-> a, d |-> d]
LOCAL NB(x, w) == [i \in 1..w |-> (x \div (256 ^ (w - i))) % 256]

U(n, w)           == It("u", n, w, "", "", 1, 0, << >>)
UD(n, w, x)       == It("u", n, w, "", "", 1, 0, IF w = 4 THEN <<0, 0>> \o NB(x, 2) ELSE NB(x, w))
I(n, w)           == It("i", n, w, "", "", 1, 0, << >>)
F(n, w)           == It("f", n, w, "", "", 1, 0, << >>)
FD(n, w, d)       == It("f", n, w, "", "", 1, 0, d)
A(n, w)           == It("a", n, w, "", "", 1, 0, << >>)
R(n, t)           == It("rec", n, 0, t, "", 1, 0, << >>)
Cnt(n, w, l)      == It("cnt", n, w, "", l, 1, 0, << >>)
CntX(n, w, l, m, a) == It("cnt", n, w, "", l, m, a, << >>)
PLen(n, w, l)     == It("plen", n, w, "", l, 1, 0, << >>)
L(n, t)           == It("list", n, 0, t, n, 1, 0, << >>)
LU(n, w)          == It("lu", n, w, "", n, 1, 0, << >>)
SV(n, t)          == It("sv", n, 0, t, n, 1, 0, << >>)
Mod(n)            == It("mod", n, 0, "", n, 1, 0, << >>)
Ant(n)            == It("ant", n, 0, "", n, 1, 0, << >>)
VDat(n, dn)       == It("vdat", n, 4, "", dn, 1, 0, << >>)
Bits(ns, ws)      == It("bits", "", ws, ns, "", 1, 0, << >>)
Flag(n)           == It("flag", n, 1, "", "", 1, 0, << >>)
Z(w)              == It("z", "", w, "", "", 1, 0, << >>)
Rest(n)           == It("rest", n, 0, "", "", 1, 0, << >>)
Align8(m)         == It("align", "", 0, "", "", m, 0, << >>)

\* A class: its module, its role, its PDU type / record type number, its items.
LOCAL Cl(m, k, ty, fam, f) == [m |-> m, k |-> k, ty |-> ty, fam |-> fam, f |-> f]
Rec(m, f)          == Cl(m, "rec", 0, "", f)
Part(m, k, f)      == Cl(m, k, 0, "", f)
SVRec(m, ty, fam, f) == Cl(m, "sv", ty, fam, f)

\* 6.2.66 PDU Header record, and the fields each protocol family puts after it
LOCAL Hdr(ty, fam) == <<
      UD("protocolVersion", 1, 7), U("exerciseID", 1), UD("pduType", 1, ty), UD("protocolFamily", 1, fam),
      U("timestamp", 4), U("length", 2), U("pduStatus", 1), U("padding", 1) >>
LOCAL Pdu(ty, fam, f) == Cl("dis7", "pdu", ty, ToString(fam), Hdr(ty, fam) \o f)
LOCAL TwoIDs(a, b) == << R(a, "EntityIdentifier"), R(b, "EntityIdentifier") >>
EntityInfo(ty, f) == Pdu(ty, 1, f)
Warfare(ty, f)    == Pdu(ty, 2, TwoIDs("firingEntityID", "targetEntityID") \o f)
Logistics(ty, f)  == Pdu(ty, 3, f)
RadioComm(ty, f)  == Pdu(ty, 4, f)
SimMgmt(ty, f)    == Pdu(ty, 5, TwoIDs("originatingEntityID", "receivingEntityID") \o f)
DistEmis(ty, f)   == Pdu(ty, 6, f)
EntityMgmt(ty, f) == Pdu(ty, 7, f)
Minefield(ty, f)  == Pdu(ty, 8, f)
SynthEnv(ty, f)   == Pdu(ty, 9, f)
SimMgmtR(ty, f)   == Pdu(ty, 10, TwoIDs("originatingEntityID", "receivingEntityID") \o f)

\* 6.2.17 / 6.2.18 specifications, carried inline by the simulation management PDUs
LOCAL Datums == <<
      Cnt("numberOfFixedDatumRecords", 4, "fixedDatumRecords"),
      Cnt("numberOfVariableDatumRecords", 4, "variableDatumRecords"),
      L("fixedDatumRecords", "FixedDatum"), L("variableDatumRecords", "VariableDatum") >>
LOCAL DatumIDs == <<
      Cnt("numberOfFixedDatumIDs", 4, "fixedDatumIDs"), Cnt("numberOfVariableDatumIDs", 4, "variableDatumIDs"),
      LU("fixedDatumIDs", 4), LU("variableDatumIDs", 4) >>

Layout == [
  EntityIdentifier |-> Rec("common", <<
      R("simulationAddress", "SimulationAddress"), U("entityNumber", 2) >>),
  EulerAngles |-> Rec("common", <<
      F("psi", 4), F("theta", 4), F("phi", 4) >>),
  EventIdentifier |-> Rec("common", <<
      R("simulationAddress", "SimulationAddress"), U("eventNumber", 2) >>),
  SimulationAddress |-> Rec("common", <<
      U("site", 2), U("application", 2) >>),
  Vector3Float |-> Rec("common", <<
      F("x", 4), F("y", 4), F("z", 4) >>),
  WorldCoordinates |-> Rec("common", <<
      F("x", 8), F("y", 8), F("z", 8) >>),
  UnknownRadio |-> Part("radio", "mod", <<
      Rest("data") >>),
  UnknownAntennaPattern |-> Part("radio", "ant", <<
      Rest("data") >>),
  BeamAntennaPattern |-> Part("radio", "ant", <<
      R("beamDirection", "EulerAngles"), F("azimuthBeamwidth", 4), F("elevationBeamwidth", 4),
      U("referenceSystem", 1), U("padding1", 1), U("padding2", 2), F("ez", 4), F("ex", 4), F("phase", 4),
      U("padding3", 4) >>),
  SpreadSpectrum |-> Rec("radio", <<
      Bits(<<"frequencyHopping", "pseudoNoise", "timeHopping", "padding">>, <<1, 1, 1, 13>>) >>),
  ModulationType |-> Rec("radio", <<
      R("spreadSpectrum", "SpreadSpectrum"), U("majorModulation", 2), U("detail", 2), U("radioSystem", 2) >>),
  NetId |-> Rec("radio", <<
      Bits(<<"netNumber", "frequencyTable", "mode", "padding">>, <<10, 2, 2, 2>>) >>),
  GenericRadio |-> Part("radio", "mod", << >>),
  SimpleIntercomRadio |-> Part("radio", "mod", << >>),
  BasicHaveQuickMP |-> Part("radio", "mod", <<
      R("net_id", "NetId"), UD("mwod_index", 2, 1), U("reserved16", 2), U("reserved8_1", 1), U("reserved8_2", 1),
      U("time_of_day", 4), U("padding", 4) >>),
  CCTTSincgarsMP |-> Part("radio", "mod", <<
      U("fh_net_id", 2), U("hop_set_id", 2), U("lockout_set_id", 2), U("start_of_message", 1),
      U("clear_channel", 1), U("fh_sync_time_offset", 4), U("transmission_security_key", 2), U("padding", 2) >>),
  HighFidelityHAVEQUICKRadio |-> SVRec("radio", 3000, "vtp", <<
      U("padding1", 2), R("netId", "NetId"), U("todTransmitIndicator", 1), U("padding2", 1),
      U("todDelta", 4), U("wod1", 4), U("wod2", 4), U("wod3", 4), U("wod4", 4), U("wod5", 4), U("wod6", 4) >>),
  DEFireFlags |-> Rec("enums", <<
      Bits(<<"weaponOn", "stateUpdateFlag", "padding">>, <<1, 1, 14>>) >>),
  DirectedEnergyDamage |-> SVRec("warfare", 4500, "damage", <<
      U("padding", 2), R("damageLocation", "Vector3Float"), F("damageDiameter", 4), FD("temperature", 4, <<195, 136, 147, 51>>),
      U("componentIdentification", 1), U("componentDamageStatus", 1), U("componentVisualDamageStatus", 1),
      U("componentVisualSmokeColor", 1), R("fireEventID", "EventIdentifier"), U("padding2", 2) >>),
  DirectedEnergyAreaAimpoint |-> SVRec("warfare", 4001, "damage", <<
      U("padding", 2), Cnt("beamAntennaPatternCount", 2, "beamAntennaPatterns"),
      Cnt("directedEnergyTargetEnergyDepositionCount", 2, "directedEnergyTargetEnergyDepositions"),
      L("beamAntennaPatterns", "BeamAntennaPattern"),
      L("directedEnergyTargetEnergyDepositions", "DirectedEnergyTargetEnergyDeposition"), Align8(6) >>),
  DirectedEnergyPrecisionAimpoint |-> SVRec("warfare", 4000, "damage", <<
      U("padding", 2), R("targetSpotLocation", "WorldCoordinates"),
      R("targetSpotEntityLocation", "Vector3Float"), R("targetSpotVelocity", "Vector3Float"),
      R("targetSpotAcceleration", "Vector3Float"), R("targetEntityID", "EntityIdentifier"),
      U("targetComponentID", 1), U("beamSpotType", 1), F("beamSpotCrossSectionSemiMajorAxis", 4),
      F("beamSpotCrossSectionSemiMinorAxis", 4), F("beamSpotCrossSectionOrientationAngle", 4),
      F("peakIrradiance", 4), U("padding2", 4) >>),
  DirectedEnergyTargetEnergyDeposition |-> Rec("warfare", <<
      R("targetEntityID", "EntityIdentifier"), U("padding", 2), F("peakIrradiance", 4) >>),
  DataQueryDatumSpecification |-> Rec("dis7", <<
      Cnt("numberOfFixedDatumIDs", 4, "fixedDatumIDs"),
      Cnt("numberOfVariableDatumIDs", 4, "variableDatumIDs"), LU("fixedDatumIDs", 4),
      LU("variableDatumIDs", 4) >>),
  RadioIdentifier |-> Rec("dis7", <<
      U("siteNumber", 2), U("applicationNumber", 2), U("referenceNumber", 2), U("radioNumber", 2) >>),
  RequestID |-> Rec("dis7", <<
      U("requestID", 4) >>),
  IFFData |-> Rec("dis7", <<
      U("recordType", 4), CntX("", 2, "iffData", 1, 6), LU("iffData", 1) >>),
  MunitionDescriptor |-> Rec("dis7", <<
      R("munitionType", "EntityType"), U("warhead", 2), U("fuse", 2), U("quantity", 2), U("rate", 2) >>),
  MinefieldSensorType |-> Rec("dis7", <<
      U("sensorType", 2) >>),
  GroupID |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("groupNumber", 2) >>),
  LayerHeader |-> Rec("dis7", <<
      U("layerNumber", 1), U("layerSpecificInformation", 1), U("length", 2) >>),
  UnsignedDISInteger |-> Rec("dis7", <<
      U("val", 4) >>),
  DeadReckoningParameters |-> Rec("dis7", <<
      U("deadReckoningAlgorithm", 1), A("parameters", 15), R("entityLinearAcceleration", "Vector3Float"),
      R("entityAngularVelocity", "Vector3Float") >>),
  ProtocolMode |-> Rec("dis7", <<
      U("protocolMode", 2) >>),
  AngleDeception |-> Rec("dis7", <<
      UD("recordType", 4, 3501), UD("recordLength", 2, 48), U("padding", 2), U("emitterNumber", 1),
      U("beamNumber", 1), U("stateIndicator", 1), U("padding2", 1), F("azimuthOffset", 4),
      F("azimuthWidth", 4), F("azimuthPullRate", 4), F("azimuthPullAcceleration", 4),
      F("elevationOffset", 4), F("elevationWidth", 4), F("elevationPullRate", 4),
      F("elevationPullAcceleration", 4), U("padding3", 4) >>),
  EntityAssociation |-> Rec("dis7", <<
      UD("recordType", 1, 4), U("changeIndicator", 1), U("associationStatus", 1), U("associationType", 1),
      R("entityID", "EntityIdentifier"), U("ownStationLocation", 2), U("physicalConnectionType", 1),
      U("groupMemberType", 1), U("groupNumber", 2) >>),
  VectoringNozzleSystem |-> Rec("dis7", <<
      F("horizontalDeflectionAngle", 4), F("verticalDeflectionAngle", 4) >>),
  FalseTargetsAttribute |-> Rec("dis7", <<
      UD("recordType", 4, 3502), UD("recordLength", 2, 48), U("padding", 2), U("emitterNumber", 1),
      U("beamNumber", 1), U("stateIndicator", 1), U("padding2", 1), U("falseTargetCount", 2),
      F("walkSpeed", 4), F("walkAcceleration", 4), F("maximumWalkDistance", 4), F("keepTime", 4),
      F("echoSpacing", 4) >>),
  MinefieldIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("minefieldNumber", 2) >>),
  RadioType |-> Rec("dis7", <<
      UD("entityKind", 1, 7), U("domain", 1), U("country", 2), U("category", 1), U("subcategory", 1),
      U("specific", 1), U("extra", 1) >>),
  NamedLocationIdentification |-> Rec("dis7", <<
      U("stationName", 2), U("stationNumber", 2) >>),
  IFFDataSpecification |-> Rec("dis7", <<
      Cnt("numberOfIFFDataRecords", 2, "iffDataRecords"), L("iffDataRecords", "IFFData") >>),
  OwnershipStatus |-> Rec("dis7", <<
      R("entityId", "EntityIdentifier"), U("ownershipStatus", 1), U("padding", 1) >>),
  AttachedParts |-> Rec("dis7", <<
      UD("recordType", 1, 1), U("detachedIndicator", 1), U("partAttachedTo", 2), U("parameterType", 4),
      R("attachedPartType", "EntityType") >>),
  Attribute |-> Rec("dis7", <<
      U("recordType", 4), U("recordLength", 2), I("recordSpecificFields", 8) >>),
  RecordQuerySpecification |-> Rec("dis7", <<
      Cnt("numberOfRecords", 4, "recordIDs"), LU("recordIDs", 4) >>),
  ArticulatedParts |-> Rec("dis7", <<
      UD("recordType", 1, 0), U("changeIndicator", 1), U("partAttachedTo", 2), U("parameterType", 4),
      I("parameterValue", 8) >>),
  ObjectType |-> Rec("dis7", <<
      U("domain", 1), U("objectKind", 1), U("category", 1), U("subcategory", 1) >>),
  Association |-> Rec("dis7", <<
      U("associationType", 1), U("padding4", 1), R("associatedEntityID", "EntityIdentifier"),
      R("associatedLocation", "WorldCoordinates") >>),
  RecordSpecificationElement |-> Rec("dis7", <<
      U("recordID", 4), U("recordSetSerialNumber", 4), U("recordLength", 2), U("recordCount", 2),
      U("recordValues", 2), U("pad4", 1) >>),
  AntennaLocation |-> Rec("dis7", <<
      R("antennaLocation", "WorldCoordinates"), R("relativeAntennaLocation", "Vector3Float") >>),
  ObjectIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("objectNumber", 2) >>),
  AggregateIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("aggregateID", 2) >>),
  FixedDatum |-> Rec("dis7", <<
      U("fixedDatumID", 4), U("fixedDatumValue", 4) >>),
  VariableParameter |-> Rec("dis7", <<
      U("recordType", 1), F("variableParameterFields1", 8), U("variableParameterFields2", 4),
      U("variableParameterFields3", 2), U("variableParameterFields4", 1) >>),
  ChangeOptions |-> Rec("dis7", << >>),
  LiveSimulationAddress |-> Rec("dis7", <<
      U("liveSiteNumber", 1), U("liveApplicationNumber", 1) >>),
  EntityMarking |-> Rec("dis7", <<
      U("characterSet", 1), A("characters", 11) >>),
  UAFundamentalParameter |-> Rec("dis7", <<
      U("activeEmissionParameterIndex", 2), U("scanPattern", 2), F("beamCenterAzimuthHorizontal", 4),
      F("azimuthalBeamwidthHorizontal", 4), F("beamCenterDepressionElevation", 4),
      F("beamwidthDownElevation", 4) >>),
  ExplosionDescriptor |-> Rec("dis7", <<
      R("explodingObject", "EntityType"), U("explosiveMaterial", 2), U("padding", 2), F("explosiveForce", 4) >>),
  ClockTime |-> Rec("dis7", <<
      U("hour", 4), U("timePastHour", 4) >>),
  SecondaryOperationalData |-> Rec("dis7", <<
      U("operationalData1", 1), U("operationalData2", 1), U("numberOfIFFFundamentalParameterRecords", 2) >>),
  EnvironmentType |-> Rec("dis7", <<
      U("entityKind", 1), U("domain", 1), U("entityClass", 2), U("category", 1), U("subcategory", 1),
      U("specific", 1), U("extra", 1) >>),
  TotalRecordSets |-> Rec("dis7", <<
      U("totalRecordSets", 2), U("padding", 2) >>),
  MineEntityIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("mineEntityNumber", 2) >>),
  Relationship |-> Rec("dis7", <<
      U("nature", 2), U("position", 2) >>),
  EEFundamentalParameterData |-> Rec("dis7", <<
      F("frequency", 4), F("frequencyRange", 4), F("effectiveRadiatedPower", 4),
      F("pulseRepetitionFrequency", 4), F("pulseWidth", 4), F("beamAzimuthCenter", 4),
      F("beamAzimuthSweep", 4), F("beamElevationCenter", 4), F("beamElevationSweep", 4), F("beamSweepSync", 4) >>),
  JammingTechnique |-> Rec("dis7", <<
      U("kind", 1), U("category", 1), U("subcategory", 1), U("specific", 1) >>),
  DatumSpecification |-> Rec("dis7", <<
      Cnt("numberOfFixedDatumRecords", 4, "fixedDatumRecords"),
      Cnt("numberOfVariableDatumRecords", 4, "variableDatumRecords"), L("fixedDatumRecords", "FixedDatum"),
      L("variableDatumRecords", "VariableDatum") >>),
  Expendable |-> Rec("dis7", <<
      R("expendable", "EntityType"), U("station", 4), U("quantity", 2), U("expendableStatus", 1),
      U("padding", 1) >>),
  IOCommunicationsNode |-> Rec("dis7", <<
      UD("recordType", 4, 5501), UD("recordLength", 2, 16), U("communcationsNodeType", 1), U("padding", 1),
      R("communicationsNodeID", "CommunicationsNodeID") >>),
  LinearSegmentParameter |-> Rec("dis7", <<
      U("segmentNumber", 1), U("segmentModification", 1), U("generalSegmentAppearance", 2),
      U("specificSegmentAppearance", 4), R("segmentLocation", "WorldCoordinates"),
      R("segmentOrientation", "EulerAngles"), F("segmentLength", 4), F("segmentWidth", 4),
      F("segmentHeight", 4), F("segmentDepth", 4), U("padding", 4) >>),
  SystemIdentifier |-> Rec("dis7", <<
      U("systemType", 2), U("systemName", 2), U("systemMode", 2), R("changeOptions", "ChangeOptions") >>),
  TrackJamData |-> Rec("dis7", <<
      R("entityID", "EntityIdentifier"), U("emitterNumber", 1), U("beamNumber", 1) >>),
  AggregateType |-> Rec("dis7", <<
      U("aggregateKind", 1), U("domain", 1), U("country", 2), U("category", 1), U("subcategory", 1),
      U("specificInfo", 1), U("extra", 1) >>),
  SimulationManagementPduHeader |-> Rec("dis7", <<
      R("pduHeader", "PduHeader"), R("originatingID", "SimulationIdentifier"),
      R("receivingID", "SimulationIdentifier") >>),
  BeamData |-> Rec("dis7", <<
      F("beamAzimuthCenter", 4), F("beamAzimuthSweep", 4), F("beamElevationCenter", 4),
      F("beamElevationSweep", 4), F("beamSweepSync", 4) >>),
  EngineFuel |-> Rec("dis7", <<
      U("fuelQuantity", 4), U("fuelMeasurementUnits", 1), U("fuelType", 1), U("fuelLocation", 1),
      U("padding", 1) >>),
  IOEffect |-> Rec("dis7", <<
      UD("recordType", 4, 5500), UD("recordLength", 2, 16), U("ioStatus", 1), U("ioLinkType", 1),
      U("ioEffect", 1), U("ioEffectDutyCycle", 1), U("ioEffectDuration", 2), U("ioProcess", 2),
      U("padding", 2) >>),
  SimulationIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("referenceNumber", 2) >>),
  GridAxisDescriptorVariable |-> Rec("dis7", <<
      F("domainInitialXi", 8), F("domainFinalXi", 8), U("domainPointsXi", 2), U("interleafFactor", 1),
      U("axisType", 1), Cnt("", 2, "xiValues"), U("initialIndex", 2), F("coordinateScaleXi", 8),
      F("coordinateOffsetXi", 8), LU("xiValues", 2) >>),
  SupplyQuantity |-> Rec("dis7", <<
      R("supplyType", "EntityType"), F("quantity", 4) >>),
  SilentEntitySystem |-> Rec("dis7", <<
      U("numberOfEntities", 2), Cnt("numberOfAppearanceRecords", 2, "appearanceRecordList"),
      R("entityType", "EntityType"), LU("appearanceRecordList", 4) >>),
  SilentAggregateSystem |-> Rec("dis7", <<
      U("numberOfAggregates", 2), R("aggregateType", "AggregateType") >>),
  BlankingSector |-> Rec("dis7", <<
      UD("recordType", 4, 3500), UD("recordLength", 2, 40), U("padding", 2), U("emitterNumber", 1),
      U("beamNumber", 1), U("stateIndicator", 1), U("padding2", 1), F("leftAzimuth", 4),
      F("rightAzimuth", 4), F("lowerElevation", 4), F("upperElevation", 4), F("residualPower", 4),
      U("padding3", 4), U("padding4", 4) >>),
  LaunchedMunitionRecord |-> Rec("dis7", <<
      R("fireEventID", "EventIdentifier"), U("padding", 2), R("firingEntityID", "EventIdentifier"),
      U("padding2", 2), R("targetEntityID", "EventIdentifier"), U("padding3", 2),
      R("targetLocation", "WorldCoordinates") >>),
  IFFFundamentalParameterData |-> Rec("dis7", <<
      F("erp", 4), F("frequency", 4), F("pgrf", 4), F("pulseWidth", 4), U("burstLength", 4),
      U("applicableModes", 1), A("systemSpecificData", 3) >>),
  FundamentalOperationalData |-> Rec("dis7", <<
      U("systemStatus", 1), U("dataField1", 1), U("informationLayers", 1), U("dataField2", 1),
      U("parameter1", 2), U("parameter2", 2), U("parameter3", 2), U("parameter4", 2), U("parameter5", 2),
      U("parameter6", 2) >>),
  IntercomCommunicationsParameters |-> Rec("dis7", <<
      U("recordType", 2), U("recordLength", 2), U("recordSpecificField", 4) >>),
  EntityType |-> Rec("dis7", <<
      U("entityKind", 1), U("domain", 1), U("country", 2), U("category", 1), U("subcategory", 1),
      U("specific", 1), U("extra", 1) >>),
  Munition |-> Rec("dis7", <<
      R("munitionType", "EntityType"), U("station", 4), U("quantity", 2), U("munitionStatus", 1),
      U("padding", 1) >>),
  StandardVariableSpecification |-> Rec("dis7", <<
      Cnt("numberOfStandardVariableRecords", 2, "standardVariables"), SV("standardVariables", "any") >>),
  Vector2Float |-> Rec("dis7", <<
      F("x", 4), F("y", 4) >>),
  Environment |-> Rec("dis7", <<
      U("environmentType", 4), U("length", 2), U("index", 1), U("padding0", 1) >>),
  AcousticEmitter |-> Rec("dis7", <<
      U("acousticSystemName", 2), U("acousticFunction", 1), U("acousticIDNumber", 1) >>),
  AngularVelocityVector |-> Rec("dis7", <<
      F("x", 4), F("y", 4), F("z", 4) >>),
  AggregateMarking |-> Rec("dis7", <<
      U("characterSet", 1), A("characters", 31) >>),
  DataFilterRecord |-> Rec("dis7", <<
      U("bitFlags", 4) >>),
  IntercomIdentifier |-> Rec("dis7", <<
      U("siteNumber", 2), U("applicationNumber", 2), U("referenceNumber", 2), U("intercomNumber", 2) >>),
  StorageFuel |-> Rec("dis7", <<
      U("fuelQuantity", 4), U("fuelMeasurementUnits", 1), U("fuelType", 1), U("fuelLocation", 1),
      U("padding", 1) >>),
  Sensor |-> Rec("dis7", <<
      U("sensorTypeSource", 1), U("sensorOnOffStatus", 1), U("sensorType", 2), U("station", 4),
      U("quantity", 2), U("padding", 2) >>),
  MunitionReload |-> Rec("dis7", <<
      R("munitionType", "EntityType"), U("station", 4), U("standardQuantity", 2), U("maximumQuantity", 2),
      U("standardQuantityReloadTime", 4), U("maximumQuantityReloadTime", 4) >>),
  StorageFuelReload |-> Rec("dis7", <<
      U("standardQuantity", 4), U("maximumQuantity", 4), U("standardQuantityReloadTime", 4),
      U("maximumQuantityReloadTime", 4), U("fuelMeasurementUnits", 1), U("fuelType", 1),
      U("fuelLocation", 1), U("padding", 1) >>),
  ExpendableReload |-> Rec("dis7", <<
      R("expendable", "EntityType"), U("station", 4), U("standardQuantity", 2), U("maximumQuantity", 2),
      U("standardQuantityReloadTime", 4), U("maximumQuantityReloadTime", 4) >>),
  EngineFuelReload |-> Rec("dis7", <<
      U("standardQuantity", 4), U("maximumQuantity", 4), U("standardQuantityReloadTime", 4),
      U("maximumQuantityReloadTime", 4), U("fuelMeasurmentUnits", 1), U("fuelLocation", 1), U("padding", 1) >>),
  UnattachedIdentifier |-> Rec("dis7", <<
      R("simulationAddress", "SimulationAddress"), U("referenceNumber", 2) >>),
  EntityTypeVP |-> Rec("dis7", <<
      UD("recordType", 1, 3), U("changeIndicator", 1), R("entityType", "EntityType"), U("padding", 2),
      U("padding1", 4) >>),
  BeamStatus |-> Rec("dis7", <<
      Flag("beamState") >>),
  EnvironmentGeneral |-> Rec("dis7", <<
      U("environmentType", 4), U("length", 1), U("index", 1), U("padding1", 1), U("geometry", 1),
      U("padding2", 1) >>),
  GridAxis |-> Rec("dis7", <<
      F("domainInitialXi", 8), F("domainFinalXi", 8), U("domainPointsXi", 2), U("interleafFactor", 1),
      U("axisType", 1), U("numberOfPointsOnXiAxis", 2), U("initialIndex", 2) >>),
  RecordSpecification |-> Rec("dis7", <<
      Cnt("numberOfRecordSets", 4, "recordSets"), L("recordSets", "RecordSpecificationElement") >>),
  VariableDatum |-> Rec("dis7", <<
      U("variableDatumID", 4), VDat("variableDatumLength", "variableData") >>),
  EventIdentifierLiveEntity |-> Rec("dis7", <<
      U("siteNumber", 1), U("applicationNumber", 1), U("eventNumber", 2) >>),
  PduHeader |-> Rec("dis7", <<
      UD("protocolVersion", 1, 7), U("exerciseID", 1), U("pduType", 1), U("protocolFamily", 1),
      U("timestamp", 4), U("pduLength", 2), U("pduStatus", 1), U("padding", 1) >>),
  CommunicationsNodeID |-> Rec("dis7", <<
      R("entityID", "EntityIdentifier"), U("elementID", 2) >>),
  ExpendableDescriptor |-> Rec("dis7", <<
      R("expendableType", "EntityType"), I("padding", 8) >>),
  PropulsionSystemData |-> Rec("dis7", <<
      F("powerSetting", 4), F("engineRpm", 4) >>),
  LiveEntityIdentifier |-> Rec("dis7", <<
      R("liveSimulationAddress", "LiveSimulationAddress"), U("entityNumber", 2) >>),
  SeparationVP |-> Rec("dis7", <<
      UD("recordType", 1, 2), U("reasonForSeparation", 1), U("preEntityIndicator", 1), U("padding1", 1),
      R("parentEntityID", "EntityIdentifier"), U("padding2", 2),
      R("stationLocation", "NamedLocationIdentification") >>),
  EmitterSystem |-> Rec("dis7", <<
      U("emitterName", 2), U("emitterFunction", 1), U("emitterIDNumber", 1) >>),
  PduStatus |-> Rec("dis7", <<
      U("pduStatus", 1) >>),
  EntityStateUpdatePdu |-> EntityInfo(67, <<
      R("entityID", "EntityIdentifier"), I("padding1", 1),
      Cnt("numberOfVariableParameters", 1, "variableParameters"), R("entityLinearVelocity", "Vector3Float"),
      R("entityLocation", "WorldCoordinates"), R("entityOrientation", "EulerAngles"),
      U("entityAppearance", 4), L("variableParameters", "VariableParameter") >>),
  ServiceRequestPdu |-> Logistics(5, <<
      R("requestingEntityID", "EntityIdentifier"), R("servicingEntityID", "EntityIdentifier"),
      U("serviceTypeRequested", 1), Cnt("numberOfSupplyTypes", 1, "supplies"), I("serviceRequestPadding", 2),
      L("supplies", "SupplyQuantity") >>),
  RepairCompletePdu |-> Logistics(9, <<
      R("receivingEntityID", "EntityIdentifier"), R("repairingEntityID", "EntityIdentifier"), U("repair", 2),
      I("padding4", 2) >>),
  CollisionPdu |-> EntityInfo(4, <<
      R("issuingEntityID", "EntityIdentifier"), R("collidingEntityID", "EntityIdentifier"),
      R("eventID", "EventIdentifier"), U("collisionType", 1), I("pad", 1), R("velocity", "Vector3Float"),
      F("mass", 4), R("location", "Vector3Float") >>),
  RepairResponsePdu |-> Logistics(10, <<
      R("receivingEntityID", "EntityIdentifier"), R("repairingEntityID", "EntityIdentifier"),
      U("repairResult", 1), I("padding1", 2), I("padding2", 1) >>),
  DataQueryPdu |-> SimMgmt(18, <<
      U("requestID", 4), U("timeInterval", 4) >> \o DatumIDs),
  LinearObjectStatePdu |-> SynthEnv(44, <<
      R("objectID", "EntityIdentifier"), R("referencedObjectID", "EntityIdentifier"), U("updateNumber", 2),
      U("forceID", 1), Cnt("numberOfSegments", 1, "linearSegmentParameters"),
      R("requesterID", "SimulationAddress"), R("receivingID", "SimulationAddress"),
      R("objectType", "ObjectType"), L("linearSegmentParameters", "LinearSegmentParameter") >>),
  CreateEntityPdu |-> SimMgmt(11, <<
      U("requestID", 4) >>),
  IntercomSignalPdu |-> RadioComm(31, <<
      R("entityID", "EntityIdentifier"), U("communicationsDeviceID", 2), U("encodingScheme", 2),
      U("tdlType", 2), U("sampleRate", 4), CntX("dataLength", 2, "data", 8, 0), U("samples", 2), LU("data", 1) >>),
  RemoveEntityPdu |-> SimMgmt(12, <<
      U("requestID", 4) >>),
  ResupplyReceivedPdu |-> Logistics(7, <<
      R("receivingEntityID", "EntityIdentifier"), R("supplyingEntityID", "EntityIdentifier"),
      Cnt("numberOfSupplyTypes", 1, "supplies"), I("padding1", 2), I("padding2", 1),
      L("supplies", "SupplyQuantity") >>),
  CollisionElasticPdu |-> EntityInfo(66, <<
      R("issuingEntityID", "EntityIdentifier"), R("collidingEntityID", "EntityIdentifier"),
      R("collisionEventID", "EventIdentifier"), I("pad", 2), R("contactVelocity", "Vector3Float"),
      F("mass", 4), R("locationOfImpact", "Vector3Float"), F("collisionIntermediateResultXX", 4),
      F("collisionIntermediateResultXY", 4), F("collisionIntermediateResultXZ", 4),
      F("collisionIntermediateResultYY", 4), F("collisionIntermediateResultYZ", 4),
      F("collisionIntermediateResultZZ", 4), R("unitSurfaceNormal", "Vector3Float"),
      F("coefficientOfRestitution", 4) >>),
  ActionRequestPdu |-> SimMgmt(16, <<
      U("requestID", 4), U("actionID", 4) >> \o Datums),
  AcknowledgePdu |-> SimMgmt(15, <<
      U("acknowledgeFlag", 2), U("responseFlag", 2), U("requestID", 4) >>),
  ActionRequestReliablePdu |-> SimMgmtR(56, <<
      U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("requestID", 4), U("actionID", 4),
      I("pad3", 4) >> \o Datums),
  DesignatorPdu |-> DistEmis(24, <<
      R("designatingEntityID", "EntityIdentifier"), U("codeName", 2),
      R("designatedEntityID", "EntityIdentifier"), U("designatorCode", 2), F("designatorPower", 4),
      F("designatorWavelength", 4), R("designatorSpotWrtDesignated", "Vector3Float"),
      R("designatorSpotLocation", "WorldCoordinates"), U("deadReckoningAlgorithm", 1), U("padding1", 2),
      I("padding2", 1), R("entityLinearAcceleration", "Vector3Float") >>),
  StopFreezePdu |-> SimMgmt(14, <<
      R("realWorldTime", "ClockTime"), U("reason", 1), U("frozenBehavior", 1), I("padding1", 2),
      U("requestID", 4) >>),
  EntityStatePdu |-> EntityInfo(1, <<
      R("entityID", "EntityIdentifier"), U("forceId", 1),
      Cnt("numberOfVariableParameters", 1, "variableParameters"), R("entityType", "EntityType"),
      R("alternativeEntityType", "EntityType"), R("entityLinearVelocity", "Vector3Float"),
      R("entityLocation", "WorldCoordinates"), R("entityOrientation", "EulerAngles"),
      U("entityAppearance", 4), R("deadReckoningParameters", "DeadReckoningParameters"),
      R("marking", "EntityMarking"), U("capabilities", 4), L("variableParameters", "VariableParameter") >>),
  StartResumePdu |-> SimMgmt(13, <<
      R("realWorldTime", "ClockTime"), R("simulationTime", "ClockTime"), U("requestID", 4) >>),
  TransmitterPdu |-> RadioComm(25, <<
      R("radioReferenceID", "EntityIdentifier"), U("radioNumber", 2), R("radioEntityType", "EntityType"),
      U("transmitState", 1), U("inputSource", 1),
      Cnt("variableTransmitterParameterCount", 2, "variableTransmitterParameters"),
      R("antennaLocation", "WorldCoordinates"), R("relativeAntennaLocation", "Vector3Float"),
      U("antennaPatternType", 2), PLen("antennaPatternLength", 2, "antennaPattern"), U("frequency", 8),
      F("transmitFrequencyBandwidth", 4), F("power", 4), R("modulationType", "ModulationType"),
      U("cryptoSystem", 2), U("cryptoKeyId", 2),
      PLen("modulationParametersLength", 1, "modulationParameters"), U("padding2", 2), U("padding3", 1),
      Mod("modulationParameters"), Ant("antennaPattern"), SV("variableTransmitterParameters", "vtp") >>),
  ElectromagneticEmissionsPdu |-> DistEmis(23, <<
      R("emittingEntityID", "EntityIdentifier"), R("eventID", "EventIdentifier"),
      U("stateUpdateIndicator", 1), Cnt("numberOfSystems", 1, "systems"), U("paddingForEmissionsPdu", 2),
      L("systems", "EmissionSystemRecord") >>),
  EmissionSystemBeamRecord |-> Rec("dis7", <<
      U("beamDataLength", 1), U("beamIDNumber", 1), U("beamParameterIndex", 2),
      R("fundamentalParameterData", "EEFundamentalParameterData"), U("beamFunction", 1),
      Cnt("numberOfTargetsInTrackJam", 1, "trackJamRecords"), U("highDensityTrackJam", 1),
      R("beamStatus", "BeamStatus"), U("jammingModeSequence", 4), L("trackJamRecords", "TrackJamData") >>),
  EmissionSystemRecord |-> Rec("dis7", <<
      U("systemDataLength", 1), Cnt("numberOfBeams", 1, "beamRecords"), Z(2),
      R("emitterSystem", "EmitterSystem"), R("location", "Vector3Float"),
      L("beamRecords", "EmissionSystemBeamRecord") >>),
  ResupplyOfferPdu |-> Logistics(6, <<
      R("receivingEntityID", "EntityIdentifier"), R("supplyingEntityID", "EntityIdentifier"),
      Cnt("numberOfSupplyTypes", 1, "supplies"), I("padding1", 1), I("padding2", 2),
      L("supplies", "SupplyQuantity") >>),
  AttributePdu |-> EntityInfo(72, <<
      R("originatingSimulationAddress", "SimulationAddress"), I("padding1", 4), I("padding2", 2),
      U("attributeRecordPduType", 1), U("attributeRecordProtocolVersion", 1),
      U("masterAttributeRecordType", 4), U("actionCode", 1), I("padding3", 1),
      U("numberOfAttributeRecordSets", 2) >>),
  SetDataReliablePdu |-> SimMgmtR(59, <<
      U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("requestID", 4) >> \o Datums),
  EventReportPdu |-> SimMgmt(21, <<
      U("eventType", 4), U("padding1", 4) >> \o Datums),
  PointObjectStatePdu |-> SynthEnv(43, <<
      R("objectID", "EntityIdentifier"), R("referencedObjectID", "EntityIdentifier"), U("updateNumber", 2),
      U("forceID", 1), U("modifications", 1), R("objectType", "ObjectType"),
      R("objectLocation", "WorldCoordinates"), R("objectOrientation", "EulerAngles"),
      F("objectAppearance", 8), R("requesterID", "SimulationAddress"), R("receivingID", "SimulationAddress"),
      U("pad2", 4) >>),
  DataPdu |-> SimMgmt(20, <<
      U("requestID", 4), U("padding1", 4) >> \o Datums),
  FastEntityStatePdu |-> EntityInfo(1, <<
      U("site", 2), U("application", 2), U("entity", 2), U("forceId", 1), Cnt("", 1, "variableParameters"),
      U("entityKind", 1), U("domain", 1), U("country", 2), U("category", 1), U("subcategory", 1),
      U("specific", 1), U("extra", 1), U("altEntityKind", 1), U("altDomain", 1), U("altCountry", 2),
      U("altCategory", 1), U("altSubcategory", 1), U("altSpecific", 1), U("altExtra", 1), F("xVelocity", 4),
      F("yVelocity", 4), F("zVelocity", 4), F("xLocation", 8), F("yLocation", 8), F("zLocation", 8),
      F("psi", 4), F("theta", 4), F("phi", 4), U("entityAppearance", 4), U("deadReckoningAlgorithm", 1),
      A("otherParameters", 15), F("xAcceleration", 4), F("yAcceleration", 4), F("zAcceleration", 4),
      F("xAngularVelocity", 4), F("yAngularVelocity", 4), F("zAngularVelocity", 4), A("marking", 12),
      U("capabilities", 4), L("variableParameters", "VariableParameter") >>),
  AcknowledgeReliablePdu |-> SimMgmtR(55, <<
      U("acknowledgeFlag", 2), U("responseFlag", 2), U("requestID", 4) >>),
  StartResumeReliablePdu |-> SimMgmtR(53, <<
      R("realWorldTime", "ClockTime"), R("simulationTime", "ClockTime"), U("requiredReliabilityService", 1),
      U("pad1", 2), U("pad2", 1), U("requestID", 4) >>),
  ArealObjectStatePdu |-> SynthEnv(45, <<
      R("objectID", "EntityIdentifier"), R("referencedObjectID", "EntityIdentifier"), U("updateNumber", 2),
      U("forceID", 1), U("modifications", 1), R("objectType", "ObjectType"),
      U("specificObjectAppearance", 4), U("generalObjectAppearance", 2),
      Cnt("numberOfPoints", 2, "objectLocation"), R("requesterID", "SimulationAddress"),
      R("receivingID", "SimulationAddress"), L("objectLocation", "WorldCoordinates") >>),
  DataQueryReliablePdu |-> SimMgmtR(58, <<
      U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("requestID", 4), U("timeInterval", 4) >> \o DatumIDs),
  MinefieldStatePdu |-> Minefield(37, <<
      R("minefieldID", "MinefieldIdentifier"), U("minefieldSequence", 2), U("forceID", 1),
      Cnt("numberOfPerimeterPoints", 1, "perimeterPoints"), R("minefieldType", "EntityType"),
      Cnt("numberOfMineTypes", 2, "mineTypes"), R("minefieldLocation", "WorldCoordinates"),
      R("minefieldOrientation", "EulerAngles"), U("appearance", 2), U("protocolMode", 2),
      L("perimeterPoints", "Vector2Float"), L("mineTypes", "EntityType") >>),
  DataReliablePdu |-> SimMgmtR(60, <<
      U("requestID", 4), U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1) >> \o Datums),
  CommentPdu |-> SimMgmt(22, << >> \o Datums),
  CommentReliablePdu |-> SimMgmtR(62, << >> \o Datums),
  DirectedEnergyFirePdu |-> Warfare(68, <<
      R("munitionType", "EntityType"), R("shotStartTime", "ClockTime"), F("cumulativeShotTime", 4),
      R("apertureEmitterLocation", "Vector3Float"), F("apertureDiameter", 4), F("wavelength", 4),
      U("padding1", 4), F("pulseRepetitionFrequency", 4), F("pulseWidth", 4), R("flags", "DEFireFlags"),
      U("pulseShape", 1), U("padding2", 1), U("padding3", 4), U("padding4", 2),
      Cnt("numberOfDERecords", 2, "dERecords"), SV("dERecords", "damage") >>),
  DetonationPdu |-> Warfare(3, <<
      R("explodingEntityID", "EntityIdentifier"), R("eventID", "EventIdentifier"),
      R("velocity", "Vector3Float"), R("location", "WorldCoordinates"),
      R("descriptor", "MunitionDescriptor"), R("locationInEntityCoordinates", "Vector3Float"),
      U("detonationResult", 1), Cnt("numberOfVariableParameters", 1, "variableParameters"), U("pad", 2),
      L("variableParameters", "VariableParameter") >>),
  SetDataPdu |-> SimMgmt(19, <<
      U("requestID", 4), U("padding1", 4) >> \o Datums),
  RecordQueryReliablePdu |-> SimMgmtR(63, <<
      U("requestID", 4), U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("eventType", 2),
      U("time", 4), Cnt("numberOfRecords", 4, "recordIDs"), LU("recordIDs", 4) >>),
  ActionResponsePdu |-> SimMgmt(17, <<
      U("requestID", 4), U("requestStatus", 4) >> \o Datums),
  EntityDamageStatusPdu |-> Warfare(69, <<
      R("damagedEntityID", "EntityIdentifier"), U("padding1", 2), U("padding2", 2),
      Cnt("damageDescriptionCount", 2, "damageDescriptions"), SV("damageDescriptions", "damage") >>),
  FirePdu |-> Warfare(2, <<
      R("munitionExpendableID", "EntityIdentifier"), R("eventID", "EventIdentifier"),
      U("fireMissionIndex", 4), R("location", "WorldCoordinates"), R("descriptor", "MunitionDescriptor"),
      R("velocity", "Vector3Float"), F("range", 4) >>),
  ReceiverPdu |-> RadioComm(27, <<
      U("receiverState", 2), U("padding1", 2), F("receivedPower", 4),
      R("transmitterEntityID", "EntityIdentifier"), U("transmitterRadioId", 2) >>),
  UaPdu |-> DistEmis(29, <<
      R("emittingEntityID", "EntityIdentifier"), R("eventID", "EventIdentifier"),
      U("stateChangeIndicator", 1), I("pad", 1), U("passiveParameterIndex", 2),
      U("propulsionPlantConfiguration", 1), Cnt("numberOfShafts", 1, "shaftRPMs"),
      Cnt("numberOfAPAs", 1, "apaData"), Cnt("numberOfUAEmitterSystems", 1, "emitterSystems"),
      L("shaftRPMs", "-"), L("apaData", "-"), L("emitterSystems", "-") >>),
  IntercomControlPdu |-> RadioComm(32, <<
      U("controlType", 1), U("communicationsChannelType", 1), R("sourceEntityID", "EntityIdentifier"),
      U("sourceCommunicationsDeviceID", 2), U("sourceLineID", 1), U("transmitPriority", 1),
      U("transmitLineState", 1), U("command", 1), R("masterEntityID", "EntityIdentifier"),
      U("masterCommunicationsDeviceID", 2), CntX("intercomParametersLength", 4, "intercomParameters", 8, 0),
      L("intercomParameters", "IntercomCommunicationsParameters") >>),
  SignalPdu |-> RadioComm(26, <<
      R("entityID", "EntityIdentifier"), U("radioID", 2), U("encodingScheme", 2), U("tdlType", 2),
      U("sampleRate", 4), CntX("", 2, "data", 8, 0), U("samples", 2), LU("data", 1) >>),
  RemoveEntityReliablePdu |-> SimMgmtR(52, <<
      U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("requestID", 4) >>),
  SeesPdu |-> DistEmis(30, <<
      R("orginatingEntityID", "EntityIdentifier"), U("infraredSignatureRepresentationIndex", 2),
      U("acousticSignatureRepresentationIndex", 2), U("radarCrossSectionSignatureRepresentationIndex", 2),
      Cnt("numberOfPropulsionSystems", 2, "propulsionSystemData"),
      Cnt("numberOfVectoringNozzleSystems", 2, "vectoringSystemData"),
      L("propulsionSystemData", "PropulsionSystemData"), L("vectoringSystemData", "VectoringNozzleSystem") >>),
  CreateEntityReliablePdu |-> SimMgmtR(51, <<
      U("requiredReliabilityService", 1), U("pad1", 2), U("pad2", 1), U("requestID", 4) >>),
  StopFreezeReliablePdu |-> SimMgmtR(54, <<
      R("realWorldTime", "ClockTime"), U("reason", 1), U("frozenBehavior", 1),
      U("requiredReliablityService", 1), U("pad1", 1), U("requestID", 4) >>),
  EventReportReliablePdu |-> SimMgmtR(61, <<
      U("eventType", 4), U("pad1", 4) >> \o Datums),
  MinefieldResponseNackPdu |-> Minefield(40, <<
      R("minefieldID", "EntityIdentifier"), R("requestingEntityID", "EntityIdentifier"), U("requestID", 1),
      Cnt("numberOfMissingPdus", 1, "missingPduSequenceNumbers"), LU("missingPduSequenceNumbers", 1) >>),
  ActionResponseReliablePdu |-> SimMgmtR(57, <<
      U("requestID", 4), U("responseStatus", 4) >> \o Datums),
  IsPartOfPdu |-> EntityMgmt(36, <<
      R("orginatingEntityID", "EntityIdentifier"), R("receivingEntityID", "EntityIdentifier"),
      R("relationship", "Relationship"), R("partLocation", "Vector3Float"),
      R("namedLocationID", "NamedLocationIdentification"), R("partEntityType", "EntityType") >>),
  AggregateStatePdu |-> EntityMgmt(33, <<
      R("aggregateID", "AggregateIdentifier"), U("forceID", 1), U("aggregateState", 1),
      R("aggregateType", "AggregateType"), U("formation", 4), R("aggregateMarking", "AggregateMarking"),
      R("dimensions", "Vector3Float"), R("orientation", "EulerAngles"), R("centerOfMass", "Vector3Float"),
      R("velocity", "WorldCoordinates"), Cnt("numberOfAggregateIDs", 2, "aggregateIDs"),
      Cnt("numberOfEntityIDs", 2, "entityIDs"),
      Cnt("numberOfSilentAggregateSystems", 2, "silentAggregateSystems"),
      Cnt("numberOfSilentEntitySystems", 2, "silentEntitySystems"), L("aggregateIDs", "AggregateIdentifier"),
      L("entityIDs", "EntityIdentifier"), L("silentAggregateSystems", "SilentAggregateSystem"),
      L("silentEntitySystems", "SilentEntitySystem"),
      Cnt("numberOfVariableDatumRecords", 4, "variableDatumRecords"),
      L("variableDatumRecords", "VariableDatum") >>),
  \* base classes; they have no PDU type of their own
  PduSuperclass |-> Cl("dis7", "abs", 0, "", SubSeq(Hdr(0, 0), 1, 6)),
  Pdu |-> Cl("dis7", "abs", 0, "", Hdr(0, 0)),
  LiveEntityPdu |-> Cl("dis7", "abs", 0, "", SubSeq(Hdr(0, 0), 1, 6) \o << U("subprotocolNumber", 2), U("padding", 1) >>)
]

Classes == DOMAIN Layout

\* Constructor parameters, in order, and the few whose attribute is named differently
CtorArgs == [
  EntityIdentifier |-> <<"simulationAddress", "entityNumber">>,
  EulerAngles |-> <<"psi", "theta", "phi">>,
  EventIdentifier |-> <<"simulationAddress", "eventNumber">>,
  SimulationAddress |-> <<"site", "application">>,
  Vector3Float |-> <<"x", "y", "z">>,
  WorldCoordinates |-> <<"x", "y", "z">>,
  UnknownRadio |-> <<"data">>,
  UnknownAntennaPattern |-> <<"data">>,
  BeamAntennaPattern |-> <<"beamDirection", "azimuthBeamwidth", "elevationBeamwidth", "referenceSystem", "ez", "ex", "phase">>,
  SpreadSpectrum |-> <<"frequencyHopping", "pseudoNoise", "timeHopping", "padding">>,
  ModulationType |-> <<"spreadSpectrum", "majorModulation", "detail", "radioSystem">>,
  NetId |-> <<"netNumber", "frequencyTable", "mode", "padding">>,
  BasicHaveQuickMP |-> <<"net_id", "mwod_index", "reserved16", "reserved8_1", "reserved8_2", "time_of_day", "padding">>,
  CCTTSincgarsMP |-> <<"fh_net_id", "hop_set_id", "lockout_set_id", "start_of_message", "clear_channel", "fh_sync_time_offset", "transmission_security_key">>,
  HighFidelityHAVEQUICKRadio |-> <<"netId", "todTransmitIndicator", "todDelta", "wod1", "wod2", "wod3", "wod4", "wod5", "wod6">>,
  DEFireFlags |-> <<"weaponOn", "stateUpdateFlag">>,
  DirectedEnergyDamage |-> <<"damageLocation", "damageDiameter", "temperature", "componentIdentification", "componentDamageStatus", "componentVisualDamageStatus", "componentVisualSmokeColor", "fireEventID">>,
  DirectedEnergyAreaAimpoint |-> <<"beamAntennaPatterns", "directedEnergyTargetEnergyDepositions">>,
  DirectedEnergyPrecisionAimpoint |-> <<"targetSpotLocation", "targetSpotEntityLocation", "targetSpotVelocity", "targetSpotAcceleration", "targetEntityID", "targetComponentID", "beamSpotType", "beamSpotCrossSectionSemiMajorAxis", "beamSpotCrossSectionSemiMinorAxis", "beamSpotCrossSectionOrientationAngle", "peakIrradiance">>,
  DirectedEnergyTargetEnergyDeposition |-> <<"targetEntityID", "peakIrradiance">>,
  DataQueryDatumSpecification |-> <<"fixedDatumIDs", "variableDatumIDs">>,
  RadioIdentifier |-> <<"siteNumber", "applicationNumber", "referenceNumber", "radioNumber">>,
  RequestID |-> <<"requestID">>,
  IFFData |-> <<"recordType", "recordLength", "iffData">>,
  MunitionDescriptor |-> <<"munitionType", "warhead", "fuse", "quantity", "rate">>,
  MinefieldSensorType |-> <<"sensorType">>,
  GroupID |-> <<"simulationAddress", "groupNumber">>,
  LayerHeader |-> <<"layerNumber", "layerSpecificInformation", "length">>,
  UnsignedDISInteger |-> <<"val">>,
  DeadReckoningParameters |-> <<"deadReckoningAlgorithm", "parameters", "entityLinearAcceleration", "entityAngularVelocity">>,
  ProtocolMode |-> <<"protocolMode">>,
  AngleDeception |-> <<"emitterNumber", "beamNumber", "stateIndicator", "azimuthOffset", "azimuthWidth", "azimuthPullRate", "azimuthPullAcceleration", "elevationOffset", "elevationWidth", "elevationPullRate", "elevationPullAcceleration">>,
  EntityAssociation |-> <<"changeIndicator", "associationStatus", "associationType", "entityID", "ownStationLocation", "physicalConnectionType", "groupMemberType", "groupNumber">>,
  VectoringNozzleSystem |-> <<"horizontalDeflectionAngle", "verticalDeflectionAngle">>,
  FalseTargetsAttribute |-> <<"emitterNumber", "beamNumber", "stateIndicator", "falseTargetCount", "walkSpeed", "walkAcceleration", "maximumWalkDistance", "keepTime", "echoSpacing">>,
  MinefieldIdentifier |-> <<"simulationAddress", "minefieldNumber">>,
  RadioType |-> <<"domain", "country", "category", "subcategory", "specific", "extra">>,
  NamedLocationIdentification |-> <<"stationName", "stationNumber">>,
  IFFDataSpecification |-> <<"iffDataRecords">>,
  OwnershipStatus |-> <<"entityId", "ownershipStatus">>,
  AttachedParts |-> <<"detachedIndicator", "partAttachedTo", "parameterType", "attachedPartType">>,
  Attribute |-> <<"recordType", "recordLength", "recordSpecificFields">>,
  RecordQuerySpecification |-> <<"recordIDs">>,
  ArticulatedParts |-> <<"changeIndicator", "partAttachedTo", "parameterType", "parameterValue">>,
  ObjectType |-> <<"domain", "objectKind", "category", "subcategory">>,
  Association |-> <<"associationType", "associatedEntityID", "associatedLocation">>,
  RecordSpecificationElement |-> <<"recordID", "recordSetSerialNumber", "recordLength", "recordCount", "recordValues">>,
  AntennaLocation |-> <<"antennaLocation", "relativeAntennaLocation">>,
  ObjectIdentifier |-> <<"simulationAddress", "objectNumber">>,
  AggregateIdentifier |-> <<"simulationAddress", "aggregateID">>,
  FixedDatum |-> <<"fixedDatumID", "fixedDatumValue">>,
  VariableParameter |-> <<"recordType", "variableParameterFields1", "variableParameterFields2", "variableParameterFields3", "variableParameterFields4">>,
  ChangeOptions |-> <<>>,
  LiveSimulationAddress |-> <<"liveSiteNumber", "liveApplicationNumber">>,
  EntityMarking |-> <<"characterSet", "characters">>,
  UAFundamentalParameter |-> <<"activeEmissionParameterIndex", "scanPattern", "beamCenterAzimuthHorizontal", "azimuthBeamwidthHorizontal", "beamCenterDepressionElevation", "beamwidthDownElevation">>,
  ExplosionDescriptor |-> <<"explodingObject", "explosiveMaterial", "explosiveForce">>,
  ClockTime |-> <<"hour", "timePastHour">>,
  SecondaryOperationalData |-> <<"operationalData1", "operationalData2", "numberOfIFFFundamentalParameterRecords">>,
  EnvironmentType |-> <<"entityKind", "domain", "entityClass", "category", "subcategory", "specific", "extra">>,
  TotalRecordSets |-> <<"totalRecordSets">>,
  MineEntityIdentifier |-> <<"simulationAddress", "mineEntityNumber">>,
  Relationship |-> <<"nature", "position">>,
  EEFundamentalParameterData |-> <<"frequency", "frequencyRange", "effectiveRadiatedPower", "pulseRepetitionFrequency", "pulseWidth", "beamAzimuthCenter", "beamAzimuthSweep", "beamElevationCenter", "beamElevationSweep", "beamSweepSync">>,
  JammingTechnique |-> <<"kind", "category", "subcategory", "specific">>,
  DatumSpecification |-> <<"fixedDatumRecords", "variableDatumRecords">>,
  Expendable |-> <<"expendable", "station", "quantity", "expendableStatus">>,
  IOCommunicationsNode |-> <<"communicationsNodeType", "communicationsNodeID">>,
  LinearSegmentParameter |-> <<"segmentNumber", "segmentModification", "generalSegmentAppearance", "specificSegmentAppearance", "segmentLocation", "segmentOrientation", "segmentLength", "segmentWidth", "segmentHeight", "segmentDepth">>,
  SystemIdentifier |-> <<"systemType", "systemName", "systemMode", "changeOptions">>,
  TrackJamData |-> <<"entityID", "emitterNumber", "beamNumber">>,
  AggregateType |-> <<"aggregateKind", "domain", "country", "category", "subcategory", "specificInfo", "extra">>,
  SimulationManagementPduHeader |-> <<"pduHeader", "originatingID", "receivingID">>,
  BeamData |-> <<"beamAzimuthCenter", "beamAzimuthSweep", "beamElevationCenter", "beamElevationSweep", "beamSweepSync">>,
  EngineFuel |-> <<"fuelQuantity", "fuelMeasurementUnits", "fuelType", "fuelLocation">>,
  IOEffect |-> <<"ioStatus", "ioLinkType", "ioEffect", "ioEffectDutyCycle", "ioEffectDuration", "ioProcess">>,
  SimulationIdentifier |-> <<"simulationAddress", "referenceNumber">>,
  GridAxisDescriptorVariable |-> <<"domainInitialXi", "domainFinalXi", "domainPointsXi", "interleafFactor", "axisType", "numberOfPointsOnXiAxis", "initialIndex", "coordinateScaleXi", "coordinateOffsetXi", "xiValues">>,
  SupplyQuantity |-> <<"supplyType", "quantity">>,
  SilentEntitySystem |-> <<"numberOfEntities", "entityType", "appearanceRecordList">>,
  SilentAggregateSystem |-> <<"numberOfAggregates", "aggregateType">>,
  BlankingSector |-> <<"emitterNumber", "beamNumber", "stateIndicator", "leftAzimuth", "rightAzimuth", "lowerElevation", "upperElevation", "residualPower">>,
  LaunchedMunitionRecord |-> <<"fireEventID", "firingEntityID", "targetEntityID", "targetLocation">>,
  IFFFundamentalParameterData |-> <<"erp", "frequency", "pgrf", "pulseWidth", "burstLength", "applicableModes", "systemSpecificData">>,
  FundamentalOperationalData |-> <<"systemStatus", "dataField1", "informationLayers", "dataField2", "parameter1", "parameter2", "parameter3", "parameter4", "parameter5", "parameter6">>,
  IntercomCommunicationsParameters |-> <<"recordType", "recordLength", "recordSpecificField">>,
  EntityType |-> <<"entityKind", "domain", "country", "category", "subcategory", "specific", "extra">>,
  Munition |-> <<"munitionType", "station", "quantity", "munitionStatus">>,
  StandardVariableSpecification |-> <<"standardVariables">>,
  Vector2Float |-> <<"x", "y">>,
  Environment |-> <<"environmentType", "length", "index">>,
  AcousticEmitter |-> <<"acousticSystemName", "acousticFunction", "acousticIDNumber">>,
  AngularVelocityVector |-> <<"x", "y", "z">>,
  AggregateMarking |-> <<"characterSet", "characters">>,
  DataFilterRecord |-> <<"bitFlags">>,
  IntercomIdentifier |-> <<"siteNumber", "applicationNumber", "referenceNumber", "intercomNumber">>,
  StorageFuel |-> <<"fuelQuantity", "fuelMeasurementUnits", "fuelType", "fuelLocation">>,
  Sensor |-> <<"sensorTypeSource", "sensorOnOffStatus", "sensorType", "station", "quantity">>,
  MunitionReload |-> <<"munitionType", "station", "standardQuantity", "maximumQuantity", "standardQuantityReloadTime", "maximumQuantityReloadTime">>,
  StorageFuelReload |-> <<"standardQuantity", "maximumQuantity", "standardQuantityReloadTime", "maximumQuantityReloadTime", "fuelMeasurementUnits", "fuelType", "fuelLocation">>,
  ExpendableReload |-> <<"expendable", "station", "standardQuantity", "maximumQuantity", "standardQuantityReloadTime", "maximumQuantityReloadTime">>,
  EngineFuelReload |-> <<"standardQuantity", "maximumQuantity", "standardQuantityReloadTime", "maximumQuantityReloadTime", "fuelMeasurementUnits", "fuelLocation">>,
  UnattachedIdentifier |-> <<"simulationAddress", "referenceNumber">>,
  EntityTypeVP |-> <<"changeIndicator", "entityType">>,
  BeamStatus |-> <<"beamState">>,
  EnvironmentGeneral |-> <<"environmentType", "length", "index", "geometry">>,
  GridAxis |-> <<"domainInitialXi", "domainFinalXi", "domainPointsXi", "interleafFactor", "axisType", "numberOfPointsOnXiAxis", "initialIndex">>,
  RecordSpecification |-> <<"recordSets">>,
  VariableDatum |-> <<"variableDatumID", "variableDatumLength", "variableData">>,
  EventIdentifierLiveEntity |-> <<"siteNumber", "applicationNumber", "eventNumber">>,
  PduHeader |-> <<"protocolVersion", "exerciseID", "pduType", "protocolFamily", "timestamp", "pduLength", "pduStatus">>,
  CommunicationsNodeID |-> <<"entityID", "elementID">>,
  ExpendableDescriptor |-> <<"expendableType">>,
  PropulsionSystemData |-> <<"powerSetting", "engineRpm">>,
  LiveEntityIdentifier |-> <<"liveSimulationAddress", "entityNumber">>,
  SeparationVP |-> <<"reasonForSeparation", "preEntityIndicator", "parentEntityID", "stationLocation">>,
  EmitterSystem |-> <<"emitterName", "emitterFunction", "emitterIDNumber">>,
  PduStatus |-> <<"pduStatus">>,
  EntityStateUpdatePdu |-> <<"entityID", "entityLinearVelocity", "entityLocation", "entityOrientation", "entityAppearance", "variableParameters">>,
  ServiceRequestPdu |-> <<"requestingEntityID", "servicingEntityID", "serviceTypeRequested", "supplies">>,
  RepairCompletePdu |-> <<"receivingEntityID", "repairingEntityID", "repair">>,
  CollisionPdu |-> <<"issuingEntityID", "collidingEntityID", "eventID", "collisionType", "velocity", "mass", "location">>,
  RepairResponsePdu |-> <<"receivingEntityID", "repairingEntityID", "repairResult">>,
  DataQueryPdu |-> <<"requestID", "timeInterval", "fixedDatumIDs", "variableDatumIDs">>,
  LinearObjectStatePdu |-> <<"objectID", "referencedObjectID", "updateNumber", "forceID", "requesterID", "receivingID", "objectType", "linearSegmentParameters">>,
  CreateEntityPdu |-> <<"requestID">>,
  IntercomSignalPdu |-> <<"entityID", "communicationsDeviceID", "encodingScheme", "tdlType", "sampleRate", "samples", "data">>,
  RemoveEntityPdu |-> <<"requestID">>,
  ResupplyReceivedPdu |-> <<"receivingEntityID", "supplyingEntityID", "supplies">>,
  CollisionElasticPdu |-> <<"issuingEntityID", "collidingEntityID", "collisionEventID", "contactVelocity", "mass", "locationOfImpact", "collisionIntermediateResultXX", "collisionIntermediateResultXY", "collisionIntermediateResultXZ", "collisionIntermediateResultYY", "collisionIntermediateResultYZ", "collisionIntermediateResultZZ", "unitSurfaceNormal", "coefficientOfRestitution">>,
  ActionRequestPdu |-> <<"requestID", "actionID", "fixedDatumRecords", "variableDatumRecords">>,
  AcknowledgePdu |-> <<"acknowledgeFlag", "responseFlag", "requestID">>,
  ActionRequestReliablePdu |-> <<"requiredReliabilityService", "requestID", "actionID", "fixedDatumRecords", "variableDatumRecords">>,
  DesignatorPdu |-> <<"designatingEntityID", "codeName", "designatedEntityID", "designatorCode", "designatorPower", "designatorWavelength", "designatorSpotWrtDesignated", "designatorSpotLocation", "deadReckoningAlgorithm", "entityLinearAcceleration">>,
  StopFreezePdu |-> <<"realWorldTime", "reason", "frozenBehavior", "requestID">>,
  EntityStatePdu |-> <<"entityID", "forceId", "entityType", "alternativeEntityType", "entityLinearVelocity", "entityLocation", "entityOrientation", "entityAppearance", "deadReckoningParameters", "marking", "capabilities", "variableParameters">>,
  StartResumePdu |-> <<"realWorldTime", "simulationTime", "requestID">>,
  TransmitterPdu |-> <<"radioReferenceID", "radioNumber", "radioEntityType", "transmitState", "inputSource", "antennaLocation", "relativeAntennaLocation", "antennaPatternType", "frequency", "transmitFrequencyBandwidth", "power", "modulationType", "cryptoSystem", "cryptoKeyId", "modulationParameters", "antennaPattern", "variableTransmitterParameters">>,
  ElectromagneticEmissionsPdu |-> <<"emittingEntityID", "eventID", "stateUpdateIndicator", "systems">>,
  EmissionSystemBeamRecord |-> <<"beamDataLength", "beamIDNumber", "beamParameterIndex", "fundamentalParameterData", "beamFunction", "highDensityTrackJam", "beamStatus", "jammingModeSequence", "trackJamRecords">>,
  EmissionSystemRecord |-> <<"systemDataLength", "emitterSystem", "location", "beamRecords">>,
  ResupplyOfferPdu |-> <<"receivingEntityID", "supplyingEntityID", "supplies">>,
  AttributePdu |-> <<"originatingSimulationAddress", "attributeRecordPduType", "attributeRecordProtocolVersion", "masterAttributeRecordType", "actionCode", "numberOfAttributeRecordSets">>,
  SetDataReliablePdu |-> <<"requiredReliabilityService", "requestID", "fixedDatumRecords", "variableDatumRecords">>,
  EventReportPdu |-> <<"eventType", "fixedDatumRecords", "variableDatumRecords">>,
  PointObjectStatePdu |-> <<"objectID", "referencedObjectID", "updateNumber", "forceID", "modifications", "objectType", "objectLocation", "objectOrientation", "objectAppearance", "requesterID", "receivingID">>,
  DataPdu |-> <<"requestID", "fixedDatumRecords", "variableDatumRecords">>,
  FastEntityStatePdu |-> <<"site", "application", "entity", "forceId", "numberOfVariableParameters", "entityKind", "domain", "country", "category", "subcategory", "specific", "extra", "altEntityKind", "altDomain", "altCountry", "altCategory", "altSubcategory", "altSpecific", "altExtra", "xVelocity", "yVelocity", "zVelocity", "xLocation", "yLocation", "zLocation", "psi", "theta", "phi", "entityAppearance", "deadReckoningAlgorithm", "otherParameters", "xAcceleration", "yAcceleration", "zAcceleration", "xAngularVelocity", "yAngularVelocity", "zAngularVelocity", "marking", "capabilities", "variableParameters">>,
  AcknowledgeReliablePdu |-> <<"acknowledgeFlag", "responseFlag", "requestID">>,
  StartResumeReliablePdu |-> <<"realWorldTime", "simulationTime", "requiredReliabilityService", "requestID">>,
  ArealObjectStatePdu |-> <<"objectID", "referencedObjectID", "updateNumber", "forceId", "modifications", "objectType", "specificObjectAppearance", "generalObjectAppearance", "requesterID", "receivingID", "objectLocation">>,
  DataQueryReliablePdu |-> <<"requiredReliabilityService", "requestID", "timeInterval", "fixedDatumIDs", "variableDatumIDs">>,
  MinefieldStatePdu |-> <<"minefieldID", "minefieldSequence", "forceID", "minefieldType", "minefieldLocation", "minefieldOrientation", "appearance", "protocolMode", "perimeterPoints", "mineTypes">>,
  DataReliablePdu |-> <<"requestID", "requiredReliabilityService", "fixedDatumRecords", "variableDatumRecords">>,
  CommentPdu |-> <<"fixedDatumRecords", "variableDatumRecords">>,
  CommentReliablePdu |-> <<"fixedDatumRecords", "variableDatumRecords">>,
  DirectedEnergyFirePdu |-> <<"munitionType", "shotStartTime", "cumulativeShotTime", "apertureEmitterLocation", "apertureDiameter", "wavelength", "pulseRepetitionFrequency", "pulseWidth", "flags", "pulseShape", "dERecords">>,
  DetonationPdu |-> <<"explodingEntityID", "eventID", "velocity", "location", "descriptor", "locationInEntityCoordinates", "detonationResult", "variableParameters">>,
  SetDataPdu |-> <<"requestID", "fixedDatumRecords", "variableDatumRecords">>,
  RecordQueryReliablePdu |-> <<"requestID", "requiredReliabilityService", "eventType", "time", "recordIDs">>,
  ActionResponsePdu |-> <<"requestID", "requestStatus", "fixedDatumRecords", "variableDatumRecords">>,
  EntityDamageStatusPdu |-> <<"damagedEntityID", "damageDescriptions">>,
  FirePdu |-> <<"munitionExpendableID", "eventID", "fireMissionIndex", "location", "descriptor", "velocity", "range_">>,
  ReceiverPdu |-> <<"receiverState", "receivedPower", "transmitterEntityID", "transmitterRadioId">>,
  UaPdu |-> <<"emittingEntityID", "eventID", "stateChangeIndicator", "passiveParameterIndex", "propulsionPlantConfiguration", "shaftRPMs", "apaData", "emitterSystems">>,
  IntercomControlPdu |-> <<"controlType", "communicationsChannelType", "sourceEntityID", "sourceCommunicationsDeviceID", "sourceLineID", "transmitPriority", "transmitLineState", "command", "masterEntityID", "masterCommunicationsDeviceID", "intercomParameters">>,
  SignalPdu |-> <<"entityID", "radioID", "encodingScheme", "tdlType", "sampleRate", "samples", "data">>,
  RemoveEntityReliablePdu |-> <<"requiredReliabilityService", "requestID">>,
  SeesPdu |-> <<"originatingEntityID", "infraredSignatureRepresentationIndex", "acousticSignatureRepresentationIndex", "radarCrossSectionSignatureRepresentationIndex", "propulsionSystemData", "vectoringSystemData">>,
  CreateEntityReliablePdu |-> <<"requiredReliabilityService", "requestID">>,
  StopFreezeReliablePdu |-> <<"realWorldTime", "reason", "frozenBehavior", "requiredReliabilityService", "requestID">>,
  EventReportReliablePdu |-> <<"eventType", "fixedDatumRecords", "variableDatumRecords">>,
  MinefieldResponseNackPdu |-> <<"minefieldID", "requestingEntityID", "requestID", "missingPduSequenceNumbers">>,
  ActionResponseReliablePdu |-> <<"requestID", "responseStatus", "fixedDatumRecords", "variableDatumRecords">>,
  IsPartOfPdu |-> <<"originatingEntityID", "receivingEntityID", "relationship", "partLocation", "namedLocationID", "partEntityType">>,
  AggregateStatePdu |-> <<"aggregateID", "forceID", "aggregateState", "aggregateType", "formation", "aggregateMarking", "dimensions", "orientation", "centerOfMass", "velocity", "aggregateIDs", "entityIDs", "silentAggregateSystems", "silentEntitySystems", "variableDatumRecords">>,
  SimpleIntercomRadio |-> << >>,
  GenericRadio |-> << >>
]

\* <<class, parameter, attribute>>
CtorAlias == {
  <<"UAFundamentalParameter", "azimuthBeamwidthHorizontal", "azimuthalBeamwidthHorizontal">>,
  <<"IOCommunicationsNode", "communicationsNodeType", "communcationsNodeType">>,
  <<"EngineFuelReload", "fuelMeasurementUnits", "fuelMeasurmentUnits">>,
  <<"ArealObjectStatePdu", "forceId", "forceID">>,
  <<"FirePdu", "range_", "range">>,
  <<"SeesPdu", "originatingEntityID", "orginatingEntityID">>,
  <<"IsPartOfPdu", "originatingEntityID", "orginatingEntityID">>,
  <<"StopFreezeReliablePdu", "requiredReliabilityService", "requiredReliablityService">> }

\* Parameters that describe a list already given by another parameter
CtorDerived == { <<"IFFData", "recordLength">>, <<"GridAxisDescriptorVariable", "numberOfPointsOnXiAxis">>,
                 <<"FastEntityStatePdu", "numberOfVariableParameters">> }

\* PDU types the factory decodes (the classes of kind pdu, minus these)
NotInFactory == {"FastEntityStatePdu", "AttributePdu"}
Dispatch(t) == { c \in Classes : Layout[c].k = "pdu" /\ Layout[c].ty = t /\ c \notin NotInFactory }

\* Classes without an element class to decode into: only the empty lists exist
Opaque == {"-"}
\* Incomplete record (its geometry has no representation): no default object
NoDefault == {"EnvironmentGeneral", "PduSuperclass", "Pdu", "LiveEntityPdu"}

\* 6.2.83 record type numbers
SVClasses(fam) == { c \in Classes : Layout[c].k = "sv" /\ (fam = "any" \/ Layout[c].fam = fam) }
SVByType(ty) == { c \in Classes : Layout[c].k = "sv" /\ Layout[c].ty = ty }
\* Octets of the fixed part of the PDUs (no list elements) in IEEE 1278.1-2012, stated from the
\* standard and not from the layouts above, and the classes of the library that deviate from it
StandardOctets == [
  EntityStatePdu |-> 144, FirePdu |-> 96, DetonationPdu |-> 104, CollisionPdu |-> 60,
  DesignatorPdu |-> 88, TransmitterPdu |-> 104, SignalPdu |-> 32, ReceiverPdu |-> 36,
  ElectromagneticEmissionsPdu |-> 28, ServiceRequestPdu |-> 28, ResupplyOfferPdu |-> 28,
  ResupplyReceivedPdu |-> 28, RepairCompletePdu |-> 28, RepairResponsePdu |-> 28,
  CreateEntityPdu |-> 28, RemoveEntityPdu |-> 28, AcknowledgePdu |-> 32, StartResumePdu |-> 44,
  StopFreezePdu |-> 40, ActionRequestPdu |-> 40, ActionResponsePdu |-> 40, DataQueryPdu |-> 40,
  SetDataPdu |-> 40, DataPdu |-> 40, EventReportPdu |-> 40, CommentPdu |-> 32,
  CreateEntityReliablePdu |-> 32, RemoveEntityReliablePdu |-> 32, StartResumeReliablePdu |-> 48,
  StopFreezeReliablePdu |-> 40, AcknowledgeReliablePdu |-> 32, ActionResponseReliablePdu |-> 40,
  DataQueryReliablePdu |-> 44, SetDataReliablePdu |-> 40, DataReliablePdu |-> 40,
  EventReportReliablePdu |-> 40, CommentReliablePdu |-> 32, AggregateStatePdu |-> 136,
  IsPartOfPdu |-> 52, MinefieldStatePdu |-> 72, PointObjectStatePdu |-> 88,
  LinearObjectStatePdu |-> 40, ArealObjectStatePdu |-> 48, CollisionElasticPdu |-> 100,
  EntityStateUpdatePdu |-> 72, IntercomSignalPdu |-> 32, IntercomControlPdu |-> 40,
  DirectedEnergyFirePdu |-> 88, EntityDamageStatusPdu |-> 24, AttributePdu |-> 32, UaPdu |-> 32,
  SeesPdu |-> 28, FastEntityStatePdu |-> 144 ]
Deviates == {"ReceiverPdu", "EntityDamageStatusPdu", "IntercomControlPdu"}
=============================================================================
