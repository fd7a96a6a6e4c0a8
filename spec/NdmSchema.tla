---------------------------- MODULE NdmSchema ----------------------------
(* The vocabulary of the eight navigation data messages, as a program of
   entries in schema order.  B/E: begin/end of a block, C: comment list,
   L: text, epoch, decimal or integer leaf, N: enumeration, D: decimal with
   optional unit, R: rotation component (keyword held by an attribute),
   U: user-defined parameter list.  `lo'/`hi' are the occurrence bounds (hi = 0: unbounded). *)
EXTENDS Naturals, Sequences

Entry(k, f, x, t, us, en, lo, hi, row, mark, e, b) ==
  [k |-> k, f |-> f, x |-> x, t |-> t, us |-> us, en |-> en, lo |-> lo, hi |-> hi,
   row |-> row, mark |-> mark, e |-> e, b |-> b]
B(f, x, lo, hi, row, mark, e) == Entry("open", f, x, "", <<>>, <<>>, lo, hi, row, mark, e, "")
E(f)             == Entry("close", f, "", "", <<>>, <<>>, 1, 1, "", "", 0, "")
C(f, x)          == Entry("leaf", f, x, "comment", <<>>, <<>>, 0, 0, "", "", 0, "")
L(f, x, t, lo, b)   == Entry("leaf", f, x, t, <<>>, <<>>, lo, 1, "", "", 0, b)
N(f, x, en, lo)  == Entry("leaf", f, x, "enum", <<>>, en, lo, 1, "", "", 0, "")
D(f, x, us, lo, b)  == Entry("leaf", f, x, "dim", us, <<>>, lo, 1, "", "", 0, b)
R(f, x, key, us, lo, b) == Entry("leaf", f, x, key, us, <<>>, lo, 1, "", "", 0, b)
U(f, x, lo)      == Entry("leaf", f, x, "user", <<>>, <<>>, lo, 0, "", "", 0, "")

U_1xER1 == <<"1/ER">>
U_1xs1 == <<"1/s">>
U_Nxm1 == <<"N*m">>
U_Wxkg1 == <<"W/kg">>
U_d1 == <<"d">>
U_deg1 == <<"deg">>
U_degxs1 == <<"deg/s">>
U_kg1 == <<"kg">>
U_kgxmxx21 == <<"kg*m**2">>
U_kgxmxx21_1 == <<"kg/m**2">>
U_km1 == <<"km">>
U_kmxs1 == <<"km/s">>
U_kmxsxx21 == <<"km/s**2">>
U_kmxx21 == <<"km**2">>
U_kmxx2xs1 == <<"km**2/s">>
U_kmxx2xsxx21 == <<"km**2/s**2">>
U_kmxx3xsxx22 == <<"km**3/s**2", "KM**3/S**2">>
U_m1 == <<"m">>
U_mxs1 == <<"m/s">>
U_mxsxx21 == <<"m/s**2">>
U_mxx21 == <<"m**2">>
U_mxx2xkg1 == <<"m**2/kg">>
U_mxx2xs1 == <<"m**2/s">>
U_mxx2xsxx21 == <<"m**2/s**2">>
U_mxx2xsxx31 == <<"m**2/s**3">>
U_mxx2xsxx41 == <<"m**2/s**4">>
U_mxx3xkg1 == <<"m**3/kg">>
U_mxx3xxkgxsx1 == <<"m**3/(kg*s)">>
U_mxx3xxkgxsxx2x1 == <<"m**3/(kg*s**2)">>
U_mxx4xkgxx21 == <<"m**4/kg**2">>
U_revxday2 == <<"rev/day", "REV/DAY">>
U_revxdayxx22 == <<"rev/day**2", "REV/DAY**2">>
U_revxdayxx32 == <<"rev/day**3", "REV/DAY**3">>
U_s1 == <<"s">>
U_x1 == <<"%">>

E_AemRateFrameType == <<"ref_frame_a", "REF_FRAME_A", "ref_frame_b", "REF_FRAME_B">>
E_AngleTypeType == <<"AZEL", "azel", "RADEC", "radec", "XEYN", "xeyn", "XSYE", "xsye">>
E_ApmRateFrameType == <<"EULER_FRAME_A", "EULER_FRAME_B">>
E_AttitudeTypeType == <<"quaternion", "QUATERNION", "quaternion/derivative", "QUATERNION/DERIVATIVE", "quaternion/rate", "QUATERNION/RATE", "euler_angle", "EULER_ANGLE", "euler_angle/rate", "EULER_ANGLE/RATE", "spin", "SPIN", "spin/nutation", "SPIN/NUTATION">>
E_ControlledType == <<"YES", "yes", "NO", "no", "UNKNOWN", "unknown">>
E_CovarianceMethodType == <<"CALCULATED", "calculated", "DEFAULT", "default">>
E_DataQualityType == <<"raw", "RAW", "validated", "VALIDATED", "degraded", "DEGRADED">>
E_DisintegrationType == <<"NONE", "MASS-LOSS", "BREAK-UP", "MASS-LOSS + BREAK-UP">>
E_ImpactUncertaintyType == <<"NONE", "ANALYTICAL", "STOCHASTIC", "EMPIRICAL">>
E_IntegrationRefType == <<"START", "start", "MIDDLE", "middle", "END", "end">>
E_ManeuverableType == <<"YES", "yes", "NO", "no", "N/A", "n/a">>
E_ModeType == <<"SEQUENTIAL", "sequential", "SINGLE_DIFF", "single_diff">>
E_ObjectDescriptionType == <<"PAYLOAD", "payload", "ROCKET BODY", "rocket body", "UPPER STAGE", "upper stage", "DEBRIS", "debris", "UNKNOWN", "unknown", "OTHER", "other">>
E_ObjectType == <<"OBJECT1", "object1", "OBJECT2", "object2">>
E_QuaternionTypeType == <<"first", "FIRST", "last", "LAST">>
E_RangeUnitsType == <<"km", "KM", "ru", "RU", "s", "S">>
E_RangemodeType == <<"coherent", "COHERENT", "constant", "CONSTANT", "one_way", "ONE_WAY">>
E_ReentryUncertaintyMethodType == <<"NONE", "ANALYTICAL", "STOCHASTIC", "EMPIRICAL">>
E_RefFrameType == <<"EME2000", "eme2000", "ICRF", "icrf", "ITRF2000", "itrf2000", "ITRF-93", "itrf-93", "ITRF-97", "itrf-97", "TOD", "tod">>
E_ReferenceFrameType == <<"EME2000", "eme2000", "GCRF", "gcrf", "ITRF", "itrf">>
E_RotDirectionType == <<"A2B", "B2A">>
E_RotseqType == <<"121", "123", "131", "132", "212", "213", "231", "232", "312", "313", "321", "323">>
E_ScreenVolumeFrameType == <<"RTN", "rtn", "TVN", "tvn">>
E_ScreenVolumeShapeType == <<"ELLIPSOID", "ellipsoid", "BOX", "box">>
E_TimeSystemType == <<"GMST", "gmst", "GPS", "gps", "SCLK", "sclk", "TAI", "tai", "TCB", "tcb", "TDB", "tdb", "TOD", "tod", "TT", "tt", "UT1", "ut1", "UTC", "utc">>
E_TimetagRefType == <<"TRANSMIT", "transmit", "RECEIVE", "receive">>
E_YesNoType == <<"YES", "yes", "NO", "no">>

ProgAem == <<
  B("header", "header", 1, 1, "", "", 5),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 110),
    B("segment", "segment", 1, 0, "", "", 109),
      B("metadata", "metadata", 1, 1, "", "META", 27),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("object_id", "OBJECT_ID", "text", 1, "any"),
        L("center_name", "CENTER_NAME", "text", 0, "any"),
        L("ref_frame_a", "REF_FRAME_A", "text", 1, "any"),
        L("ref_frame_b", "REF_FRAME_B", "text", 1, "any"),
        N("attitude_dir", "ATTITUDE_DIR", E_RotDirectionType, 1),
        N("time_system", "TIME_SYSTEM", E_TimeSystemType, 1),
        L("start_time", "START_TIME", "epoch", 1, "any"),
        L("useable_start_time", "USEABLE_START_TIME", "epoch", 0, "any"),
        L("useable_stop_time", "USEABLE_STOP_TIME", "epoch", 0, "any"),
        L("stop_time", "STOP_TIME", "epoch", 1, "any"),
        N("attitude_type", "ATTITUDE_TYPE", E_AttitudeTypeType, 1),
        N("quaternion_type", "QUATERNION_TYPE", E_QuaternionTypeType, 0),
        N("euler_rot_seq", "EULER_ROT_SEQ", E_RotseqType, 0),
        N("rate_frame", "RATE_FRAME", E_AemRateFrameType, 0),
        L("interpolation_method", "INTERPOLATION_METHOD", "text", 0, "any"),
        L("interpolation_degree", "INTERPOLATION_DEGREE", "int", 0, "any"),
      E("metadata"),
      B("data", "data", 1, 1, "", "DATA", 108),
        C("comment", "COMMENT"),
        B("attitude_state", "attitudeState", 1, 0, "att", "", 107),
          B("quaternion_state", "quaternionState", 0, 1, "", "", 39),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            B("quaternion", "quaternion", 1, 1, "", "", 38),
              L("qc", "QC", "dec", 1, "unit"),
              L("q1", "Q1", "dec", 1, "unit"),
              L("q2", "Q2", "dec", 1, "unit"),
              L("q3", "Q3", "dec", 1, "unit"),
            E("quaternion"),
          E("quaternion_state"),
          B("quaternion_derivative", "quaternionDerivative", 0, 1, "", "", 54),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            B("quaternion", "quaternion", 1, 1, "", "", 47),
              L("qc", "QC", "dec", 1, "unit"),
              L("q1", "Q1", "dec", 1, "unit"),
              L("q2", "Q2", "dec", 1, "unit"),
              L("q3", "Q3", "dec", 1, "unit"),
            E("quaternion"),
            B("quaternion_rate", "quaternionRate", 1, 1, "", "", 53),
              D("qc_dot", "QC_DOT", U_1xs1, 1, "any"),
              D("q1_dot", "Q1_DOT", U_1xs1, 1, "any"),
              D("q2_dot", "Q2_DOT", U_1xs1, 1, "any"),
              D("q3_dot", "Q3_DOT", U_1xs1, 1, "any"),
            E("quaternion_rate"),
          E("quaternion_derivative"),
          B("quaternion_euler_rate", "quaternionEulerRate", 0, 1, "", "", 68),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            B("quaternion", "quaternion", 1, 1, "", "", 62),
              L("qc", "QC", "dec", 1, "unit"),
              L("q1", "Q1", "dec", 1, "unit"),
              L("q2", "Q2", "dec", 1, "unit"),
              L("q3", "Q3", "dec", 1, "unit"),
            E("quaternion"),
            B("rotation_rates", "rotationRates", 0, 1, "", "", 67),
              R("rotation1", "rotation1", "rate", U_degxs1, 1, "any"),
              R("rotation2", "rotation2", "rate", U_degxs1, 1, "any"),
              R("rotation3", "rotation3", "rate", U_degxs1, 1, "any"),
            E("rotation_rates"),
          E("quaternion_euler_rate"),
          B("euler_angle", "eulerAngle", 0, 1, "", "", 76),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            B("rotation_angles", "rotationAngles", 0, 1, "", "", 75),
              R("rotation1", "rotation1", "angle", U_deg1, 1, "deg"),
              R("rotation2", "rotation2", "angle", U_deg1, 1, "deg"),
              R("rotation3", "rotation3", "angle", U_deg1, 1, "deg"),
            E("rotation_angles"),
          E("euler_angle"),
          B("euler_angle_rate", "eulerAngleRate", 0, 1, "", "", 89),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            B("rotation_angles", "rotationAngles", 0, 1, "", "", 83),
              R("rotation1", "rotation1", "angle", U_deg1, 1, "deg"),
              R("rotation2", "rotation2", "angle", U_deg1, 1, "deg"),
              R("rotation3", "rotation3", "angle", U_deg1, 1, "deg"),
            E("rotation_angles"),
            B("rotation_rates", "rotationRates", 0, 1, "", "", 88),
              R("rotation1", "rotation1", "rate", U_degxs1, 1, "any"),
              R("rotation2", "rotation2", "rate", U_degxs1, 1, "any"),
              R("rotation3", "rotation3", "rate", U_degxs1, 1, "any"),
            E("rotation_rates"),
          E("euler_angle_rate"),
          B("spin", "spin", 0, 1, "", "", 96),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            D("spin_alpha", "SPIN_ALPHA", U_deg1, 1, "deg"),
            D("spin_delta", "SPIN_DELTA", U_deg1, 1, "deg"),
            D("spin_angle", "SPIN_ANGLE", U_deg1, 1, "deg"),
            D("spin_angle_vel", "SPIN_ANGLE_VEL", U_degxs1, 1, "any"),
          E("spin"),
          B("spin_nutation", "spinNutation", 0, 1, "", "", 106),
            L("epoch", "EPOCH", "epoch", 1, "any"),
            D("spin_alpha", "SPIN_ALPHA", U_deg1, 1, "deg"),
            D("spin_delta", "SPIN_DELTA", U_deg1, 1, "deg"),
            D("spin_angle", "SPIN_ANGLE", U_deg1, 1, "deg"),
            D("spin_angle_vel", "SPIN_ANGLE_VEL", U_degxs1, 1, "any"),
            D("nutation", "NUTATION", U_deg1, 1, "deg"),
            D("nutation_per", "NUTATION_PER", U_s1, 1, "nonneg"),
            D("nutation_phase", "NUTATION_PHASE", U_deg1, 1, "deg"),
          E("spin_nutation"),
        E("attitude_state"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgApm == <<
  B("header", "header", 1, 1, "", "", 5),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 88),
    B("segment", "segment", 1, 1, "", "", 87),
      B("metadata", "metadata", 1, 1, "", "", 14),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("object_id", "OBJECT_ID", "text", 1, "any"),
        L("center_name", "CENTER_NAME", "text", 0, "any"),
        N("time_system", "TIME_SYSTEM", E_TimeSystemType, 1),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 86),
        C("comment", "COMMENT"),
        B("quaternion_state", "quaternionState", 1, 1, "", "", 35),
          C("comment", "COMMENT"),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          L("q_frame_a", "Q_FRAME_A", "text", 1, "any"),
          L("q_frame_b", "Q_FRAME_B", "text", 1, "any"),
          N("q_dir", "Q_DIR", E_RotDirectionType, 1),
          B("quaternion", "quaternion", 1, 1, "", "", 28),
            L("qc", "QC", "dec", 1, "unit"),
            L("q1", "Q1", "dec", 1, "unit"),
            L("q2", "Q2", "dec", 1, "unit"),
            L("q3", "Q3", "dec", 1, "unit"),
          E("quaternion"),
          B("quaternion_rate", "quaternionRate", 0, 1, "", "", 34),
            D("qc_dot", "QC_DOT", U_1xs1, 1, "any"),
            D("q1_dot", "Q1_DOT", U_1xs1, 1, "any"),
            D("q2_dot", "Q2_DOT", U_1xs1, 1, "any"),
            D("q3_dot", "Q3_DOT", U_1xs1, 1, "any"),
          E("quaternion_rate"),
        E("quaternion_state"),
        B("euler_elements_three", "eulerElementsThree", 0, 1, "", "", 53),
          C("comment", "COMMENT"),
          L("euler_frame_a", "EULER_FRAME_A", "text", 0, "any"),
          L("euler_frame_b", "EULER_FRAME_B", "text", 0, "any"),
          N("euler_dir", "EULER_DIR", E_RotDirectionType, 0),
          N("euler_rot_seq", "EULER_ROT_SEQ", E_RotseqType, 0),
          N("rate_frame", "RATE_FRAME", E_ApmRateFrameType, 0),
          B("rotation_angles", "rotationAngles", 0, 1, "", "", 47),
            R("rotation1", "rotation1", "angle", U_deg1, 1, "deg"),
            R("rotation2", "rotation2", "angle", U_deg1, 1, "deg"),
            R("rotation3", "rotation3", "angle", U_deg1, 1, "deg"),
          E("rotation_angles"),
          B("rotation_rates", "rotationRates", 0, 1, "", "", 52),
            R("rotation1", "rotation1", "rate", U_degxs1, 1, "any"),
            R("rotation2", "rotation2", "rate", U_degxs1, 1, "any"),
            R("rotation3", "rotation3", "rate", U_degxs1, 1, "any"),
          E("rotation_rates"),
        E("euler_elements_three"),
        B("euler_elements_spin", "eulerElementsSpin", 0, 1, "", "", 66),
          C("comment", "COMMENT"),
          L("spin_frame_a", "SPIN_FRAME_A", "text", 1, "any"),
          L("spin_frame_b", "SPIN_FRAME_B", "text", 1, "any"),
          N("spin_dir", "SPIN_DIR", E_RotDirectionType, 0),
          D("spin_alpha", "SPIN_ALPHA", U_deg1, 0, "deg"),
          D("spin_delta", "SPIN_DELTA", U_deg1, 0, "deg"),
          D("spin_angle", "SPIN_ANGLE", U_deg1, 0, "deg"),
          D("spin_angle_vel", "SPIN_ANGLE_VEL", U_degxs1, 0, "any"),
          D("nutation", "NUTATION", U_deg1, 0, "deg"),
          D("nutation_per", "NUTATION_PER", U_s1, 0, "nonneg"),
          D("nutation_phase", "NUTATION_PHASE", U_deg1, 0, "deg"),
        E("euler_elements_spin"),
        B("spacecraft_parameters", "spacecraftParameters", 0, 1, "", "", 76),
          C("comment", "COMMENT"),
          L("inertia_ref_frame", "INERTIA_REF_FRAME", "text", 0, "any"),
          D("i11", "I11", U_kgxmxx21, 1, "any"),
          D("i22", "I22", U_kgxmxx21, 1, "any"),
          D("i33", "I33", U_kgxmxx21, 1, "any"),
          D("i12", "I12", U_kgxmxx21, 1, "any"),
          D("i13", "I13", U_kgxmxx21, 1, "any"),
          D("i23", "I23", U_kgxmxx21, 1, "any"),
        E("spacecraft_parameters"),
        B("maneuver_parameters", "maneuverParameters", 0, 0, "", "", 85),
          C("comment", "COMMENT"),
          L("man_epoch_start", "MAN_EPOCH_START", "epoch", 1, "any"),
          D("man_duration", "MAN_DURATION", U_s1, 1, "nonneg"),
          L("man_ref_frame", "MAN_REF_FRAME", "text", 1, "any"),
          D("man_tor_1", "MAN_TOR_1", U_Nxm1, 1, "any"),
          D("man_tor_2", "MAN_TOR_2", U_Nxm1, 1, "any"),
          D("man_tor_3", "MAN_TOR_3", U_Nxm1, 1, "any"),
        E("maneuver_parameters"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgCdm == <<
  B("header", "header", 1, 1, "", "", 7),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
    L("message_for", "MESSAGE_FOR", "text", 0, "any"),
    L("message_id", "MESSAGE_ID", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 144),
    B("relative_metadata_data", "relativeMetadataData", 1, 1, "", "", 33),
      C("comment", "COMMENT"),
      L("tca", "TCA", "epoch", 1, "any"),
      D("miss_distance", "MISS_DISTANCE", U_m1, 1, "any"),
      D("relative_speed", "RELATIVE_SPEED", U_mxs1, 0, "any"),
      B("relative_state_vector", "relativeStateVector", 0, 1, "", "", 21),
        D("relative_position_r", "RELATIVE_POSITION_R", U_m1, 1, "any"),
        D("relative_position_t", "RELATIVE_POSITION_T", U_m1, 1, "any"),
        D("relative_position_n", "RELATIVE_POSITION_N", U_m1, 1, "any"),
        D("relative_velocity_r", "RELATIVE_VELOCITY_R", U_mxs1, 1, "any"),
        D("relative_velocity_t", "RELATIVE_VELOCITY_T", U_mxs1, 1, "any"),
        D("relative_velocity_n", "RELATIVE_VELOCITY_N", U_mxs1, 1, "any"),
      E("relative_state_vector"),
      L("start_screen_period", "START_SCREEN_PERIOD", "epoch", 0, "any"),
      L("stop_screen_period", "STOP_SCREEN_PERIOD", "epoch", 0, "any"),
      N("screen_volume_frame", "SCREEN_VOLUME_FRAME", E_ScreenVolumeFrameType, 0),
      N("screen_volume_shape", "SCREEN_VOLUME_SHAPE", E_ScreenVolumeShapeType, 0),
      D("screen_volume_x", "SCREEN_VOLUME_X", U_m1, 0, "any"),
      D("screen_volume_y", "SCREEN_VOLUME_Y", U_m1, 0, "any"),
      D("screen_volume_z", "SCREEN_VOLUME_Z", U_m1, 0, "any"),
      L("screen_entry_time", "SCREEN_ENTRY_TIME", "epoch", 0, "any"),
      L("screen_exit_time", "SCREEN_EXIT_TIME", "epoch", 0, "any"),
      L("collision_probability", "COLLISION_PROBABILITY", "dec", 0, "prob"),
      L("collision_probability_method", "COLLISION_PROBABILITY_METHOD", "text", 0, "any"),
    E("relative_metadata_data"),
    B("segment", "segment", 2, 2, "", "", 143),
      B("metadata", "metadata", 1, 1, "", "", 58),
        C("comment", "COMMENT"),
        N("object", "OBJECT", E_ObjectType, 1),
        L("object_designator", "OBJECT_DESIGNATOR", "text", 1, "any"),
        L("catalog_name", "CATALOG_NAME", "text", 1, "any"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("international_designator", "INTERNATIONAL_DESIGNATOR", "text", 1, "any"),
        N("object_type", "OBJECT_TYPE", E_ObjectDescriptionType, 0),
        L("operator_contact_position", "OPERATOR_CONTACT_POSITION", "text", 0, "any"),
        L("operator_organization", "OPERATOR_ORGANIZATION", "text", 0, "any"),
        L("operator_phone", "OPERATOR_PHONE", "text", 0, "any"),
        L("operator_email", "OPERATOR_EMAIL", "text", 0, "any"),
        L("ephemeris_name", "EPHEMERIS_NAME", "text", 1, "any"),
        N("covariance_method", "COVARIANCE_METHOD", E_CovarianceMethodType, 1),
        N("maneuverable", "MANEUVERABLE", E_ManeuverableType, 1),
        L("orbit_center", "ORBIT_CENTER", "text", 0, "any"),
        N("ref_frame", "REF_FRAME", E_ReferenceFrameType, 1),
        L("gravity_model", "GRAVITY_MODEL", "text", 0, "any"),
        L("atmospheric_model", "ATMOSPHERIC_MODEL", "text", 0, "any"),
        L("n_body_perturbations", "N_BODY_PERTURBATIONS", "text", 0, "any"),
        N("solar_rad_pressure", "SOLAR_RAD_PRESSURE", E_YesNoType, 0),
        N("earth_tides", "EARTH_TIDES", E_YesNoType, 0),
        N("intrack_thrust", "INTRACK_THRUST", E_YesNoType, 0),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 142),
        C("comment", "COMMENT"),
        B("od_parameters", "odParameters", 0, 1, "", "", 73),
          C("comment", "COMMENT"),
          L("time_lastob_start", "TIME_LASTOB_START", "epoch", 0, "any"),
          L("time_lastob_end", "TIME_LASTOB_END", "epoch", 0, "any"),
          D("recommended_od_span", "RECOMMENDED_OD_SPAN", U_d1, 0, "pos"),
          D("actual_od_span", "ACTUAL_OD_SPAN", U_d1, 0, "pos"),
          L("obs_available", "OBS_AVAILABLE", "int", 0, "any"),
          L("obs_used", "OBS_USED", "int", 0, "any"),
          L("tracks_available", "TRACKS_AVAILABLE", "int", 0, "any"),
          L("tracks_used", "TRACKS_USED", "int", 0, "any"),
          D("residuals_accepted", "RESIDUALS_ACCEPTED", U_x1, 0, "pct"),
          L("weighted_rms", "WEIGHTED_RMS", "dec", 0, "nonneg"),
        E("od_parameters"),
        B("additional_parameters", "additionalParameters", 0, 1, "", "", 84),
          C("comment", "COMMENT"),
          D("area_pc", "AREA_PC", U_mxx21, 0, "nonneg"),
          D("area_drg", "AREA_DRG", U_mxx21, 0, "nonneg"),
          D("area_srp", "AREA_SRP", U_mxx21, 0, "nonneg"),
          D("mass", "MASS", U_kg1, 0, "nonneg"),
          D("cd_area_over_mass", "CD_AREA_OVER_MASS", U_mxx2xkg1, 0, "nonneg"),
          D("cr_area_over_mass", "CR_AREA_OVER_MASS", U_mxx2xkg1, 0, "nonneg"),
          D("thrust_acceleration", "THRUST_ACCELERATION", U_mxsxx21, 0, "any"),
          D("sedr", "SEDR", U_Wxkg1, 0, "nonneg"),
        E("additional_parameters"),
        B("state_vector", "stateVector", 1, 1, "", "", 93),
          C("comment", "COMMENT"),
          D("x", "X", U_km1, 1, "any"),
          D("y", "Y", U_km1, 1, "any"),
          D("z", "Z", U_km1, 1, "any"),
          D("x_dot", "X_DOT", U_kmxs1, 1, "any"),
          D("y_dot", "Y_DOT", U_kmxs1, 1, "any"),
          D("z_dot", "Z_DOT", U_kmxs1, 1, "any"),
        E("state_vector"),
        B("covariance_matrix", "covarianceMatrix", 1, 1, "", "", 141),
          C("comment", "COMMENT"),
          D("cr_r", "CR_R", U_mxx21, 1, "any"),
          D("ct_r", "CT_R", U_mxx21, 1, "any"),
          D("ct_t", "CT_T", U_mxx21, 1, "any"),
          D("cn_r", "CN_R", U_mxx21, 1, "any"),
          D("cn_t", "CN_T", U_mxx21, 1, "any"),
          D("cn_n", "CN_N", U_mxx21, 1, "any"),
          D("crdot_r", "CRDOT_R", U_mxx2xs1, 1, "any"),
          D("crdot_t", "CRDOT_T", U_mxx2xs1, 1, "any"),
          D("crdot_n", "CRDOT_N", U_mxx2xs1, 1, "any"),
          D("crdot_rdot", "CRDOT_RDOT", U_mxx2xsxx21, 1, "any"),
          D("ctdot_r", "CTDOT_R", U_mxx2xs1, 1, "any"),
          D("ctdot_t", "CTDOT_T", U_mxx2xs1, 1, "any"),
          D("ctdot_n", "CTDOT_N", U_mxx2xs1, 1, "any"),
          D("ctdot_rdot", "CTDOT_RDOT", U_mxx2xsxx21, 1, "any"),
          D("ctdot_tdot", "CTDOT_TDOT", U_mxx2xsxx21, 1, "any"),
          D("cndot_r", "CNDOT_R", U_mxx2xs1, 1, "any"),
          D("cndot_t", "CNDOT_T", U_mxx2xs1, 1, "any"),
          D("cndot_n", "CNDOT_N", U_mxx2xs1, 1, "any"),
          D("cndot_rdot", "CNDOT_RDOT", U_mxx2xsxx21, 1, "any"),
          D("cndot_tdot", "CNDOT_TDOT", U_mxx2xsxx21, 1, "any"),
          D("cndot_ndot", "CNDOT_NDOT", U_mxx2xsxx21, 1, "any"),
          D("cdrg_r", "CDRG_R", U_mxx3xkg1, 0, "any"),
          D("cdrg_t", "CDRG_T", U_mxx3xkg1, 0, "any"),
          D("cdrg_n", "CDRG_N", U_mxx3xkg1, 0, "any"),
          D("cdrg_rdot", "CDRG_RDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("cdrg_tdot", "CDRG_TDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("cdrg_ndot", "CDRG_NDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("cdrg_drg", "CDRG_DRG", U_mxx4xkgxx21, 0, "any"),
          D("csrp_r", "CSRP_R", U_mxx3xkg1, 0, "any"),
          D("csrp_t", "CSRP_T", U_mxx3xkg1, 0, "any"),
          D("csrp_n", "CSRP_N", U_mxx3xkg1, 0, "any"),
          D("csrp_rdot", "CSRP_RDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("csrp_tdot", "CSRP_TDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("csrp_ndot", "CSRP_NDOT", U_mxx3xxkgxsx1, 0, "any"),
          D("csrp_drg", "CSRP_DRG", U_mxx4xkgxx21, 0, "any"),
          D("csrp_srp", "CSRP_SRP", U_mxx4xkgxx21, 0, "any"),
          D("cthr_r", "CTHR_R", U_mxx2xsxx21, 0, "any"),
          D("cthr_t", "CTHR_T", U_mxx2xsxx21, 0, "any"),
          D("cthr_n", "CTHR_N", U_mxx2xsxx21, 0, "any"),
          D("cthr_rdot", "CTHR_RDOT", U_mxx2xsxx31, 0, "any"),
          D("cthr_tdot", "CTHR_TDOT", U_mxx2xsxx31, 0, "any"),
          D("cthr_ndot", "CTHR_NDOT", U_mxx2xsxx31, 0, "any"),
          D("cthr_drg", "CTHR_DRG", U_mxx3xxkgxsxx2x1, 0, "any"),
          D("cthr_srp", "CTHR_SRP", U_mxx3xxkgxsxx2x1, 0, "any"),
          D("cthr_thr", "CTHR_THR", U_mxx2xsxx41, 0, "any"),
        E("covariance_matrix"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgOem == <<
  B("header", "header", 1, 1, "", "", 5),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 65),
    B("segment", "segment", 1, 0, "", "", 64),
      B("metadata", "metadata", 1, 1, "", "META", 22),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("object_id", "OBJECT_ID", "text", 1, "any"),
        L("center_name", "CENTER_NAME", "text", 1, "any"),
        L("ref_frame", "REF_FRAME", "text", 1, "any"),
        L("ref_frame_epoch", "REF_FRAME_EPOCH", "epoch", 0, "any"),
        L("time_system", "TIME_SYSTEM", "text", 1, "any"),
        L("start_time", "START_TIME", "epoch", 1, "any"),
        L("useable_start_time", "USEABLE_START_TIME", "epoch", 0, "any"),
        L("useable_stop_time", "USEABLE_STOP_TIME", "epoch", 0, "any"),
        L("stop_time", "STOP_TIME", "epoch", 1, "any"),
        L("interpolation", "INTERPOLATION", "text", 0, "any"),
        L("interpolation_degree", "INTERPOLATION_DEGREE", "int", 0, "any"),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 63),
        C("comment", "COMMENT"),
        B("state_vector", "stateVector", 1, 0, "sv", "", 36),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          D("x", "X", U_km1, 1, "any"),
          D("y", "Y", U_km1, 1, "any"),
          D("z", "Z", U_km1, 1, "any"),
          D("x_dot", "X_DOT", U_kmxs1, 1, "any"),
          D("y_dot", "Y_DOT", U_kmxs1, 1, "any"),
          D("z_dot", "Z_DOT", U_kmxs1, 1, "any"),
          D("x_ddot", "X_DDOT", U_kmxsxx21, 0, "any"),
          D("y_ddot", "Y_DDOT", U_kmxsxx21, 0, "any"),
          D("z_ddot", "Z_DDOT", U_kmxsxx21, 0, "any"),
        E("state_vector"),
        B("covariance_matrix", "covarianceMatrix", 0, 0, "cov", "COVARIANCE", 62),
          C("comment", "COMMENT"),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          L("cov_ref_frame", "COV_REF_FRAME", "text", 0, "any"),
          D("cx_x", "CX_X", U_kmxx21, 1, "any"),
          D("cy_x", "CY_X", U_kmxx21, 1, "any"),
          D("cy_y", "CY_Y", U_kmxx21, 1, "any"),
          D("cz_x", "CZ_X", U_kmxx21, 1, "any"),
          D("cz_y", "CZ_Y", U_kmxx21, 1, "any"),
          D("cz_z", "CZ_Z", U_kmxx21, 1, "any"),
          D("cx_dot_x", "CX_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cx_dot_y", "CX_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cx_dot_z", "CX_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cx_dot_x_dot", "CX_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_x", "CY_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cy_dot_y", "CY_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cy_dot_z", "CY_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cy_dot_x_dot", "CY_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_y_dot", "CY_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_x", "CZ_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cz_dot_y", "CZ_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cz_dot_z", "CZ_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cz_dot_x_dot", "CZ_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_y_dot", "CZ_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_z_dot", "CZ_DOT_Z_DOT", U_kmxx2xsxx21, 1, "any"),
        E("covariance_matrix"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgOmm == <<
  B("header", "header", 1, 1, "", "", 5),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 82),
    B("segment", "segment", 1, 1, "", "", 81),
      B("metadata", "metadata", 1, 1, "", "", 17),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("object_id", "OBJECT_ID", "text", 1, "any"),
        L("center_name", "CENTER_NAME", "text", 1, "any"),
        L("ref_frame", "REF_FRAME", "text", 1, "any"),
        L("ref_frame_epoch", "REF_FRAME_EPOCH", "epoch", 0, "any"),
        L("time_system", "TIME_SYSTEM", "text", 1, "any"),
        L("mean_element_theory", "MEAN_ELEMENT_THEORY", "text", 1, "any"),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 80),
        C("comment", "COMMENT"),
        B("mean_elements", "meanElements", 1, 1, "", "", 31),
          C("comment", "COMMENT"),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          D("semi_major_axis", "SEMI_MAJOR_AXIS", U_km1, 0, "any"),
          D("mean_motion", "MEAN_MOTION", U_revxday2, 0, "any"),
          L("eccentricity", "ECCENTRICITY", "dec", 1, "nonneg"),
          D("inclination", "INCLINATION", U_deg1, 1, "incl"),
          D("ra_of_asc_node", "RA_OF_ASC_NODE", U_deg1, 1, "deg"),
          D("arg_of_pericenter", "ARG_OF_PERICENTER", U_deg1, 1, "deg"),
          D("mean_anomaly", "MEAN_ANOMALY", U_deg1, 1, "deg"),
          D("gm", "GM", U_kmxx3xsxx22, 0, "pos"),
        E("mean_elements"),
        B("spacecraft_parameters", "spacecraftParameters", 0, 1, "", "", 39),
          C("comment", "COMMENT"),
          D("mass", "MASS", U_kg1, 1, "nonneg"),
          D("solar_rad_area", "SOLAR_RAD_AREA", U_mxx21, 1, "nonneg"),
          L("solar_rad_coeff", "SOLAR_RAD_COEFF", "dec", 1, "nonneg"),
          D("drag_area", "DRAG_AREA", U_mxx21, 1, "nonneg"),
          L("drag_coeff", "DRAG_COEFF", "dec", 1, "nonneg"),
        E("spacecraft_parameters"),
        B("tle_parameters", "tleParameters", 0, 1, "", "", 50),
          C("comment", "COMMENT"),
          L("ephemeris_type", "EPHEMERIS_TYPE", "int", 0, "any"),
          L("classification_type", "CLASSIFICATION_TYPE", "text", 0, "any"),
          L("norad_cat_id", "NORAD_CAT_ID", "int", 1, "any"),
          L("element_set_no", "ELEMENT_SET_NO", "int", 1, "i4"),
          L("rev_at_epoch", "REV_AT_EPOCH", "int", 1, "any"),
          D("bstar", "BSTAR", U_1xER1, 1, "any"),
          D("mean_motion_dot", "MEAN_MOTION_DOT", U_revxdayxx22, 1, "any"),
          D("mean_motion_ddot", "MEAN_MOTION_DDOT", U_revxdayxx32, 1, "any"),
        E("tle_parameters"),
        B("covariance_matrix", "covarianceMatrix", 0, 1, "", "", 75),
          C("comment", "COMMENT"),
          L("cov_ref_frame", "COV_REF_FRAME", "text", 0, "any"),
          D("cx_x", "CX_X", U_kmxx21, 1, "any"),
          D("cy_x", "CY_X", U_kmxx21, 1, "any"),
          D("cy_y", "CY_Y", U_kmxx21, 1, "any"),
          D("cz_x", "CZ_X", U_kmxx21, 1, "any"),
          D("cz_y", "CZ_Y", U_kmxx21, 1, "any"),
          D("cz_z", "CZ_Z", U_kmxx21, 1, "any"),
          D("cx_dot_x", "CX_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cx_dot_y", "CX_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cx_dot_z", "CX_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cx_dot_x_dot", "CX_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_x", "CY_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cy_dot_y", "CY_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cy_dot_z", "CY_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cy_dot_x_dot", "CY_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_y_dot", "CY_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_x", "CZ_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cz_dot_y", "CZ_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cz_dot_z", "CZ_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cz_dot_x_dot", "CZ_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_y_dot", "CZ_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_z_dot", "CZ_DOT_Z_DOT", U_kmxx2xsxx21, 1, "any"),
        E("covariance_matrix"),
        B("user_defined_parameters", "userDefinedParameters", 0, 1, "", "", 79),
          C("comment", "COMMENT"),
          U("user_defined", "USER_DEFINED", 0),
        E("user_defined_parameters"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgOpm == <<
  B("header", "header", 1, 1, "", "", 5),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 89),
    B("segment", "segment", 1, 1, "", "", 88),
      B("metadata", "metadata", 1, 1, "", "", 16),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("object_id", "OBJECT_ID", "text", 1, "any"),
        L("center_name", "CENTER_NAME", "text", 1, "any"),
        L("ref_frame", "REF_FRAME", "text", 1, "any"),
        L("ref_frame_epoch", "REF_FRAME_EPOCH", "epoch", 0, "any"),
        L("time_system", "TIME_SYSTEM", "text", 1, "any"),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 87),
        C("comment", "COMMENT"),
        B("state_vector", "stateVector", 1, 1, "", "", 28),
          C("comment", "COMMENT"),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          D("x", "X", U_km1, 1, "any"),
          D("y", "Y", U_km1, 1, "any"),
          D("z", "Z", U_km1, 1, "any"),
          D("x_dot", "X_DOT", U_kmxs1, 1, "any"),
          D("y_dot", "Y_DOT", U_kmxs1, 1, "any"),
          D("z_dot", "Z_DOT", U_kmxs1, 1, "any"),
        E("state_vector"),
        B("keplerian_elements", "keplerianElements", 0, 1, "", "", 39),
          C("comment", "COMMENT"),
          D("semi_major_axis", "SEMI_MAJOR_AXIS", U_km1, 1, "any"),
          L("eccentricity", "ECCENTRICITY", "dec", 1, "nonneg"),
          D("inclination", "INCLINATION", U_deg1, 1, "incl"),
          D("ra_of_asc_node", "RA_OF_ASC_NODE", U_deg1, 1, "deg"),
          D("arg_of_pericenter", "ARG_OF_PERICENTER", U_deg1, 1, "deg"),
          D("true_anomaly", "TRUE_ANOMALY", U_deg1, 0, "deg"),
          D("mean_anomaly", "MEAN_ANOMALY", U_deg1, 0, "deg"),
          D("gm", "GM", U_kmxx3xsxx22, 1, "pos"),
        E("keplerian_elements"),
        B("spacecraft_parameters", "spacecraftParameters", 0, 1, "", "", 47),
          C("comment", "COMMENT"),
          D("mass", "MASS", U_kg1, 1, "nonneg"),
          D("solar_rad_area", "SOLAR_RAD_AREA", U_mxx21, 1, "nonneg"),
          L("solar_rad_coeff", "SOLAR_RAD_COEFF", "dec", 1, "nonneg"),
          D("drag_area", "DRAG_AREA", U_mxx21, 1, "nonneg"),
          L("drag_coeff", "DRAG_COEFF", "dec", 1, "nonneg"),
        E("spacecraft_parameters"),
        B("covariance_matrix", "covarianceMatrix", 0, 1, "", "", 72),
          C("comment", "COMMENT"),
          L("cov_ref_frame", "COV_REF_FRAME", "text", 0, "any"),
          D("cx_x", "CX_X", U_kmxx21, 1, "any"),
          D("cy_x", "CY_X", U_kmxx21, 1, "any"),
          D("cy_y", "CY_Y", U_kmxx21, 1, "any"),
          D("cz_x", "CZ_X", U_kmxx21, 1, "any"),
          D("cz_y", "CZ_Y", U_kmxx21, 1, "any"),
          D("cz_z", "CZ_Z", U_kmxx21, 1, "any"),
          D("cx_dot_x", "CX_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cx_dot_y", "CX_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cx_dot_z", "CX_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cx_dot_x_dot", "CX_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_x", "CY_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cy_dot_y", "CY_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cy_dot_z", "CY_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cy_dot_x_dot", "CY_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_y_dot", "CY_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_x", "CZ_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cz_dot_y", "CZ_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cz_dot_z", "CZ_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cz_dot_x_dot", "CZ_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_y_dot", "CZ_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_z_dot", "CZ_DOT_Z_DOT", U_kmxx2xsxx21, 1, "any"),
        E("covariance_matrix"),
        B("maneuver_parameters", "maneuverParameters", 0, 0, "", "", 82),
          C("comment", "COMMENT"),
          L("man_epoch_ignition", "MAN_EPOCH_IGNITION", "epoch", 1, "any"),
          D("man_duration", "MAN_DURATION", U_s1, 1, "nonneg"),
          D("man_delta_mass", "MAN_DELTA_MASS", U_kg1, 1, "neg"),
          L("man_ref_frame", "MAN_REF_FRAME", "text", 1, "any"),
          D("man_dv_1", "MAN_DV_1", U_kmxs1, 1, "any"),
          D("man_dv_2", "MAN_DV_2", U_kmxs1, 1, "any"),
          D("man_dv_3", "MAN_DV_3", U_kmxs1, 1, "any"),
        E("maneuver_parameters"),
        B("user_defined_parameters", "userDefinedParameters", 0, 1, "", "", 86),
          C("comment", "COMMENT"),
          U("user_defined", "USER_DEFINED", 0),
        E("user_defined_parameters"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgRdm == <<
  B("header", "header", 1, 1, "", "", 6),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
    L("message_id", "MESSAGE_ID", "text", 1, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 154),
    B("segment", "segment", 1, 1, "", "", 153),
      B("metadata", "metadata", 1, 1, "", "", 40),
        C("comment", "COMMENT"),
        L("object_name", "OBJECT_NAME", "text", 1, "any"),
        L("international_designator", "INTERNATIONAL_DESIGNATOR", "text", 1, "any"),
        L("catalog_name", "CATALOG_NAME", "text", 0, "any"),
        L("object_designator", "OBJECT_DESIGNATOR", "text", 0, "any"),
        N("object_type", "OBJECT_TYPE", E_ObjectDescriptionType, 0),
        L("object_owner", "OBJECT_OWNER", "text", 0, "any"),
        L("object_operator", "OBJECT_OPERATOR", "text", 0, "any"),
        N("controlled_reentry", "CONTROLLED_REENTRY", E_ControlledType, 1),
        L("center_name", "CENTER_NAME", "text", 1, "any"),
        L("time_system", "TIME_SYSTEM", "text", 1, "any"),
        L("epoch_tzero", "EPOCH_TZERO", "epoch", 1, "any"),
        L("ref_frame", "REF_FRAME", "text", 0, "any"),
        L("ref_frame_epoch", "REF_FRAME_EPOCH", "epoch", 0, "any"),
        L("ephemeris_name", "EPHEMERIS_NAME", "text", 0, "any"),
        L("gravity_model", "GRAVITY_MODEL", "text", 0, "any"),
        L("atmospheric_model", "ATMOSPHERIC_MODEL", "text", 0, "any"),
        L("solar_flux_prediction", "SOLAR_FLUX_PREDICTION", "text", 0, "any"),
        L("n_body_perturbations", "N_BODY_PERTURBATIONS", "text", 0, "any"),
        L("solar_rad_pressure", "SOLAR_RAD_PRESSURE", "text", 0, "any"),
        L("earth_tides", "EARTH_TIDES", "text", 0, "any"),
        N("intrack_thrust", "INTRACK_THRUST", E_YesNoType, 0),
        L("drag_parameters_source", "DRAG_PARAMETERS_SOURCE", "text", 0, "any"),
        D("drag_parameters_altitude", "DRAG_PARAMETERS_ALTITUDE", U_km1, 0, "any"),
        N("reentry_uncertainty_method", "REENTRY_UNCERTAINTY_METHOD", E_ReentryUncertaintyMethodType, 0),
        N("reentry_disintegration", "REENTRY_DISINTEGRATION", E_DisintegrationType, 0),
        N("impact_uncertainty_method", "IMPACT_UNCERTAINTY_METHOD", E_ImpactUncertaintyType, 0),
        L("previous_message_id", "PREVIOUS_MESSAGE_ID", "text", 0, "any"),
        L("previous_message_epoch", "PREVIOUS_MESSAGE_EPOCH", "epoch", 0, "any"),
        L("next_message_epoch", "NEXT_MESSAGE_EPOCH", "epoch", 0, "any"),
      E("metadata"),
      B("data", "data", 1, 1, "", "", 152),
        C("comment", "COMMENT"),
        B("atmospheric_reentry_parameters", "atmosphericReentryParameters", 1, 1, "", "", 53),
          C("comment", "COMMENT"),
          D("orbit_lifetime", "ORBIT_LIFETIME", U_d1, 1, "pos"),
          D("reentry_altitude", "REENTRY_ALTITUDE", U_km1, 1, "any"),
          D("orbit_lifetime_window_start", "ORBIT_LIFETIME_WINDOW_START", U_d1, 0, "pos"),
          D("orbit_lifetime_window_end", "ORBIT_LIFETIME_WINDOW_END", U_d1, 0, "pos"),
          L("nominal_reentry_epoch", "NOMINAL_REENTRY_EPOCH", "epoch", 0, "any"),
          L("reentry_window_start", "REENTRY_WINDOW_START", "epoch", 0, "any"),
          L("reentry_window_end", "REENTRY_WINDOW_END", "epoch", 0, "any"),
          D("orbit_lifetime_confidence_level", "ORBIT_LIFETIME_CONFIDENCE_LEVEL", U_x1, 0, "pct"),
        E("atmospheric_reentry_parameters"),
        B("ground_impact_parameters", "groundImpactParameters", 0, 1, "", "", 86),
          C("comment", "COMMENT"),
          L("probability_of_impact", "PROBABILITY_OF_IMPACT", "dec", 0, "prob"),
          L("probability_of_burn_up", "PROBABILITY_OF_BURN_UP", "dec", 0, "prob"),
          L("probability_of_break_up", "PROBABILITY_OF_BREAK_UP", "dec", 0, "prob"),
          L("probability_of_land_impact", "PROBABILITY_OF_LAND_IMPACT", "dec", 0, "prob"),
          L("probability_of_casualty", "PROBABILITY_OF_CASUALTY", "dec", 0, "prob"),
          L("nominal_impact_epoch", "NOMINAL_IMPACT_EPOCH", "epoch", 0, "any"),
          L("impact_window_start", "IMPACT_WINDOW_START", "epoch", 0, "any"),
          L("impact_window_end", "IMPACT_WINDOW_END", "epoch", 0, "any"),
          L("impact_ref_frame", "IMPACT_REF_FRAME", "text", 0, "any"),
          D("nominal_impact_lon", "NOMINAL_IMPACT_LON", U_deg1, 0, "lon"),
          D("nominal_impact_lat", "NOMINAL_IMPACT_LAT", U_deg1, 0, "lat"),
          D("nominal_impact_alt", "NOMINAL_IMPACT_ALT", U_m1, 0, "alt"),
          D("impact_1_confidence", "IMPACT_1_CONFIDENCE", U_x1, 0, "pct"),
          D("impact_1_start_lon", "IMPACT_1_START_LON", U_deg1, 0, "lon"),
          D("impact_1_start_lat", "IMPACT_1_START_LAT", U_deg1, 0, "lat"),
          D("impact_1_stop_lon", "IMPACT_1_STOP_LON", U_deg1, 0, "lon"),
          D("impact_1_stop_lat", "IMPACT_1_STOP_LAT", U_deg1, 0, "lat"),
          D("impact_1_cross_track", "IMPACT_1_CROSS_TRACK", U_km1, 0, "any"),
          D("impact_2_confidence", "IMPACT_2_CONFIDENCE", U_x1, 0, "pct"),
          D("impact_2_start_lon", "IMPACT_2_START_LON", U_deg1, 0, "lon"),
          D("impact_2_start_lat", "IMPACT_2_START_LAT", U_deg1, 0, "lat"),
          D("impact_2_stop_lon", "IMPACT_2_STOP_LON", U_deg1, 0, "lon"),
          D("impact_2_stop_lat", "IMPACT_2_STOP_LAT", U_deg1, 0, "lat"),
          D("impact_2_cross_track", "IMPACT_2_CROSS_TRACK", U_km1, 0, "any"),
          D("impact_3_confidence", "IMPACT_3_CONFIDENCE", U_x1, 0, "pct"),
          D("impact_3_start_lon", "IMPACT_3_START_LON", U_deg1, 0, "lon"),
          D("impact_3_start_lat", "IMPACT_3_START_LAT", U_deg1, 0, "lat"),
          D("impact_3_stop_lon", "IMPACT_3_STOP_LON", U_deg1, 0, "lon"),
          D("impact_3_stop_lat", "IMPACT_3_STOP_LAT", U_deg1, 0, "lat"),
          D("impact_3_cross_track", "IMPACT_3_CROSS_TRACK", U_km1, 0, "any"),
        E("ground_impact_parameters"),
        B("state_vector", "stateVector", 0, 1, "", "", 96),
          C("comment", "COMMENT"),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          D("x", "X", U_km1, 1, "any"),
          D("y", "Y", U_km1, 1, "any"),
          D("z", "Z", U_km1, 1, "any"),
          D("x_dot", "X_DOT", U_kmxs1, 1, "any"),
          D("y_dot", "Y_DOT", U_kmxs1, 1, "any"),
          D("z_dot", "Z_DOT", U_kmxs1, 1, "any"),
        E("state_vector"),
        B("covariance_matrix", "covarianceMatrix", 0, 1, "", "", 121),
          C("comment", "COMMENT"),
          L("cov_ref_frame", "COV_REF_FRAME", "text", 0, "any"),
          D("cx_x", "CX_X", U_kmxx21, 1, "any"),
          D("cy_x", "CY_X", U_kmxx21, 1, "any"),
          D("cy_y", "CY_Y", U_kmxx21, 1, "any"),
          D("cz_x", "CZ_X", U_kmxx21, 1, "any"),
          D("cz_y", "CZ_Y", U_kmxx21, 1, "any"),
          D("cz_z", "CZ_Z", U_kmxx21, 1, "any"),
          D("cx_dot_x", "CX_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cx_dot_y", "CX_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cx_dot_z", "CX_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cx_dot_x_dot", "CX_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_x", "CY_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cy_dot_y", "CY_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cy_dot_z", "CY_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cy_dot_x_dot", "CY_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cy_dot_y_dot", "CY_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_x", "CZ_DOT_X", U_kmxx2xs1, 1, "any"),
          D("cz_dot_y", "CZ_DOT_Y", U_kmxx2xs1, 1, "any"),
          D("cz_dot_z", "CZ_DOT_Z", U_kmxx2xs1, 1, "any"),
          D("cz_dot_x_dot", "CZ_DOT_X_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_y_dot", "CZ_DOT_Y_DOT", U_kmxx2xsxx21, 1, "any"),
          D("cz_dot_z_dot", "CZ_DOT_Z_DOT", U_kmxx2xsxx21, 1, "any"),
        E("covariance_matrix"),
        B("spacecraft_parameters", "spacecraftParameters", 0, 1, "", "", 134),
          C("comment", "COMMENT"),
          D("wet_mass", "WET_MASS", U_kg1, 0, "nonneg"),
          D("dry_mass", "DRY_MASS", U_kg1, 0, "nonneg"),
          L("hazardous_substances", "HAZARDOUS_SUBSTANCES", "text", 0, "any"),
          D("solar_rad_area", "SOLAR_RAD_AREA", U_mxx21, 0, "nonneg"),
          L("solar_rad_coeff", "SOLAR_RAD_COEFF", "dec", 0, "nonneg"),
          D("drag_area", "DRAG_AREA", U_mxx21, 0, "nonneg"),
          L("drag_coeff", "DRAG_COEFF", "dec", 0, "nonneg"),
          D("rcs", "RCS", U_mxx21, 0, "nonneg"),
          D("ballistic_coeff", "BALLISTIC_COEFF", U_kgxmxx21_1, 0, "nonneg"),
          D("thrust_acceleration", "THRUST_ACCELERATION", U_mxsxx21, 0, "any"),
        E("spacecraft_parameters"),
        B("od_parameters", "odParameters", 0, 1, "", "", 147),
          C("comment", "COMMENT"),
          L("time_lastob_start", "TIME_LASTOB_START", "epoch", 0, "any"),
          L("time_lastob_end", "TIME_LASTOB_END", "epoch", 0, "any"),
          D("recommended_od_span", "RECOMMENDED_OD_SPAN", U_d1, 0, "pos"),
          D("actual_od_span", "ACTUAL_OD_SPAN", U_d1, 0, "pos"),
          L("obs_available", "OBS_AVAILABLE", "int", 0, "any"),
          L("obs_used", "OBS_USED", "int", 0, "any"),
          L("tracks_available", "TRACKS_AVAILABLE", "int", 0, "any"),
          L("tracks_used", "TRACKS_USED", "int", 0, "any"),
          D("residuals_accepted", "RESIDUALS_ACCEPTED", U_x1, 0, "pct"),
          L("weighted_rms", "WEIGHTED_RMS", "dec", 0, "nonneg"),
        E("od_parameters"),
        B("user_defined_parameters", "userDefinedParameters", 0, 1, "", "", 151),
          C("comment", "COMMENT"),
          U("user_defined", "USER_DEFINED", 0),
        E("user_defined_parameters"),
      E("data"),
    E("segment"),
  E("body")
>>

ProgTdm == <<
  B("header", "header", 1, 1, "", "", 6),
    C("comment", "COMMENT"),
    L("creation_date", "CREATION_DATE", "epoch", 1, "any"),
    L("originator", "ORIGINATOR", "text", 1, "any"),
    L("message_id", "MESSAGE_ID", "text", 0, "any"),
  E("header"),
  B("body", "body", 1, 1, "", "", 125),
    B("segment", "segment", 1, 0, "", "", 124),
      B("metadata", "metadata", 1, 1, "", "META", 70),
        C("comment", "COMMENT"),
        L("track_id", "TRACK_ID", "text", 0, "any"),
        L("data_types", "DATA_TYPES", "text", 0, "any"),
        N("time_system", "TIME_SYSTEM", E_TimeSystemType, 1),
        L("start_time", "START_TIME", "epoch", 0, "any"),
        L("stop_time", "STOP_TIME", "epoch", 0, "any"),
        L("participant_1", "PARTICIPANT_1", "text", 1, "any"),
        L("participant_2", "PARTICIPANT_2", "text", 0, "any"),
        L("participant_3", "PARTICIPANT_3", "text", 0, "any"),
        L("participant_4", "PARTICIPANT_4", "text", 0, "any"),
        L("participant_5", "PARTICIPANT_5", "text", 0, "any"),
        N("mode", "MODE", E_ModeType, 0),
        L("path", "PATH", "epoch", 0, "any"),
        L("path_1", "PATH_1", "epoch", 0, "any"),
        L("path_2", "PATH_2", "epoch", 0, "any"),
        L("ephemeris_name_1", "EPHEMERIS_NAME_1", "text", 0, "any"),
        L("ephemeris_name_2", "EPHEMERIS_NAME_2", "text", 0, "any"),
        L("ephemeris_name_3", "EPHEMERIS_NAME_3", "text", 0, "any"),
        L("ephemeris_name_4", "EPHEMERIS_NAME_4", "text", 0, "any"),
        L("ephemeris_name_5", "EPHEMERIS_NAME_5", "text", 0, "any"),
        L("transmit_band", "TRANSMIT_BAND", "text", 0, "any"),
        L("receive_band", "RECEIVE_BAND", "text", 0, "any"),
        L("turnaround_numerator", "TURNAROUND_NUMERATOR", "int", 0, "any"),
        L("turnaround_denominator", "TURNAROUND_DENOMINATOR", "int", 0, "any"),
        N("timetag_ref", "TIMETAG_REF", E_TimetagRefType, 0),
        L("integration_interval", "INTEGRATION_INTERVAL", "dec", 0, "pos"),
        N("integration_ref", "INTEGRATION_REF", E_IntegrationRefType, 0),
        L("freq_offset", "FREQ_OFFSET", "dec", 0, "any"),
        N("range_mode", "RANGE_MODE", E_RangemodeType, 0),
        L("range_modulus", "RANGE_MODULUS", "dec", 0, "nonneg"),
        N("range_units", "RANGE_UNITS", E_RangeUnitsType, 0),
        N("angle_type", "ANGLE_TYPE", E_AngleTypeType, 0),
        N("reference_frame", "REFERENCE_FRAME", E_RefFrameType, 0),
        L("interpolation", "INTERPOLATION", "text", 0, "any"),
        L("interpolation_degree", "INTERPOLATION_DEGREE", "int", 0, "any"),
        L("doppler_count_bias", "DOPPLER_COUNT_BIAS", "dec", 0, "pos"),
        L("doppler_count_scale", "DOPPLER_COUNT_SCALE", "int", 0, "any"),
        N("doppler_count_rollover", "DOPPLER_COUNT_ROLLOVER", E_YesNoType, 0),
        L("transmit_delay_1", "TRANSMIT_DELAY_1", "dec", 0, "nonneg"),
        L("transmit_delay_2", "TRANSMIT_DELAY_2", "dec", 0, "nonneg"),
        L("transmit_delay_3", "TRANSMIT_DELAY_3", "dec", 0, "nonneg"),
        L("transmit_delay_4", "TRANSMIT_DELAY_4", "dec", 0, "nonneg"),
        L("transmit_delay_5", "TRANSMIT_DELAY_5", "dec", 0, "nonneg"),
        L("receive_delay_1", "RECEIVE_DELAY_1", "dec", 0, "nonneg"),
        L("receive_delay_2", "RECEIVE_DELAY_2", "dec", 0, "nonneg"),
        L("receive_delay_3", "RECEIVE_DELAY_3", "dec", 0, "nonneg"),
        L("receive_delay_4", "RECEIVE_DELAY_4", "dec", 0, "nonneg"),
        L("receive_delay_5", "RECEIVE_DELAY_5", "dec", 0, "nonneg"),
        N("data_quality", "DATA_QUALITY", E_DataQualityType, 0),
        L("correction_angle_1", "CORRECTION_ANGLE_1", "dec", 0, "any"),
        L("correction_angle_2", "CORRECTION_ANGLE_2", "dec", 0, "any"),
        L("correction_doppler", "CORRECTION_DOPPLER", "dec", 0, "any"),
        L("correction_mag", "CORRECTION_MAG", "dec", 0, "any"),
        L("correction_range", "CORRECTION_RANGE", "dec", 0, "any"),
        L("correction_rcs", "CORRECTION_RCS", "dec", 0, "any"),
        L("correction_receive", "CORRECTION_RECEIVE", "dec", 0, "any"),
        L("correction_transmit", "CORRECTION_TRANSMIT", "dec", 0, "any"),
        L("correction_aberration_yearly", "CORRECTION_ABERRATION_YEARLY", "dec", 0, "any"),
        L("correction_aberration_diurnal", "CORRECTION_ABERRATION_DIURNAL", "dec", 0, "any"),
        N("corrections_applied", "CORRECTIONS_APPLIED", E_YesNoType, 0),
      E("metadata"),
      B("data", "data", 1, 1, "", "DATA", 123),
        C("comment", "COMMENT"),
        B("observation", "observation", 1, 0, "obs", "", 122),
          L("epoch", "EPOCH", "epoch", 1, "any"),
          D("angle_1", "ANGLE_1", U_deg1, 0, "deg"),
          D("angle_2", "ANGLE_2", U_deg1, 0, "deg"),
          L("carrier_power", "CARRIER_POWER", "dec", 0, "any"),
          L("clock_bias", "CLOCK_BIAS", "dec", 0, "any"),
          L("clock_drift", "CLOCK_DRIFT", "dec", 0, "any"),
          L("doppler_count", "DOPPLER_COUNT", "dec", 0, "any"),
          L("doppler_instantaneous", "DOPPLER_INSTANTANEOUS", "dec", 0, "any"),
          L("doppler_integrated", "DOPPLER_INTEGRATED", "dec", 0, "any"),
          L("dor", "DOR", "dec", 0, "any"),
          L("mag", "MAG", "dec", 0, "any"),
          L("pc_n0", "PC_N0", "dec", 0, "any"),
          L("pr_n0", "PR_N0", "dec", 0, "any"),
          L("pressure", "PRESSURE", "dec", 0, "any"),
          L("range", "RANGE", "dec", 0, "any"),
          L("rcs", "RCS", "dec", 0, "any"),
          L("receive_freq", "RECEIVE_FREQ", "dec", 0, "any"),
          L("receive_freq_1", "RECEIVE_FREQ_1", "dec", 0, "any"),
          L("receive_freq_2", "RECEIVE_FREQ_2", "dec", 0, "any"),
          L("receive_freq_3", "RECEIVE_FREQ_3", "dec", 0, "any"),
          L("receive_freq_4", "RECEIVE_FREQ_4", "dec", 0, "any"),
          L("receive_freq_5", "RECEIVE_FREQ_5", "dec", 0, "any"),
          L("receive_phase_ct_1", "RECEIVE_PHASE_CT_1", "dec", 0, "any"),
          L("receive_phase_ct_2", "RECEIVE_PHASE_CT_2", "dec", 0, "any"),
          L("receive_phase_ct_3", "RECEIVE_PHASE_CT_3", "dec", 0, "any"),
          L("receive_phase_ct_4", "RECEIVE_PHASE_CT_4", "dec", 0, "any"),
          L("receive_phase_ct_5", "RECEIVE_PHASE_CT_5", "dec", 0, "any"),
          L("rhumidity", "RHUMIDITY", "dec", 0, "pct"),
          L("stec", "STEC", "dec", 0, "any"),
          L("temperature", "TEMPERATURE", "dec", 0, "nonneg"),
          L("transmit_freq_1", "TRANSMIT_FREQ_1", "dec", 0, "pos"),
          L("transmit_freq_2", "TRANSMIT_FREQ_2", "dec", 0, "pos"),
          L("transmit_freq_3", "TRANSMIT_FREQ_3", "dec", 0, "pos"),
          L("transmit_freq_4", "TRANSMIT_FREQ_4", "dec", 0, "pos"),
          L("transmit_freq_5", "TRANSMIT_FREQ_5", "dec", 0, "pos"),
          L("transmit_freq_rate_1", "TRANSMIT_FREQ_RATE_1", "dec", 0, "any"),
          L("transmit_freq_rate_2", "TRANSMIT_FREQ_RATE_2", "dec", 0, "any"),
          L("transmit_freq_rate_3", "TRANSMIT_FREQ_RATE_3", "dec", 0, "any"),
          L("transmit_freq_rate_4", "TRANSMIT_FREQ_RATE_4", "dec", 0, "any"),
          L("transmit_freq_rate_5", "TRANSMIT_FREQ_RATE_5", "dec", 0, "any"),
          L("transmit_phase_ct_1", "TRANSMIT_PHASE_CT_1", "dec", 0, "any"),
          L("transmit_phase_ct_2", "TRANSMIT_PHASE_CT_2", "dec", 0, "any"),
          L("transmit_phase_ct_3", "TRANSMIT_PHASE_CT_3", "dec", 0, "any"),
          L("transmit_phase_ct_4", "TRANSMIT_PHASE_CT_4", "dec", 0, "any"),
          L("transmit_phase_ct_5", "TRANSMIT_PHASE_CT_5", "dec", 0, "any"),
          L("tropo_dry", "TROPO_DRY", "dec", 0, "nonneg"),
          L("tropo_wet", "TROPO_WET", "dec", 0, "nonneg"),
          L("vlbi_delay", "VLBI_DELAY", "dec", 0, "any"),
        E("observation"),
      E("data"),
    E("segment"),
  E("body")
>>

Types == <<"aem", "apm", "cdm", "oem", "omm", "opm", "rdm", "tdm">>
ProgOf(t) == CASE t = "aem" -> ProgAem [] t = "apm" -> ProgApm [] t = "cdm" -> ProgCdm
               [] t = "oem" -> ProgOem [] t = "omm" -> ProgOmm [] t = "opm" -> ProgOpm
               [] t = "rdm" -> ProgRdm [] t = "tdm" -> ProgTdm
VersionKeyword == [aem |-> "CCSDS_AEM_VERS", apm |-> "CCSDS_APM_VERS", cdm |-> "CCSDS_CDM_VERS", oem |-> "CCSDS_OEM_VERS", omm |-> "CCSDS_OMM_VERS", opm |-> "CCSDS_OPM_VERS", rdm |-> "CCSDS_RDM_VERS", tdm |-> "CCSDS_TDM_VERS"]
VersionOf == [aem |-> "1.0", apm |-> "1.0", cdm |-> "1.0", oem |-> "2.0", omm |-> "2.0", opm |-> "2.0", rdm |-> "1.0", tdm |-> "2.0"]
=============================================================================
