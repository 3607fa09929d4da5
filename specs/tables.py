"""LinuxCNC's tables, as the library documents them (module comments of pygcode/gcodes.py, LinuxCNC g-code overview):
(letter, value, class, modal group, execution rank, accepted parameter letters, parameters kept in the modal state)"""
G_AXES = 'ABCUVWXYZ'
CODES = [
    ('G', 0, 'GCodeRapidMove', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 1, 'GCodeLinearMove', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 2, 'GCodeArcMoveCW', 1, 242, 'ABCIJKPRUVWXYZ', ''),
    ('G', 3, 'GCodeArcMoveCCW', 1, 242, 'ABCIJKPRUVWXYZ', ''),
    ('G', 4, 'GCodeDwell', None, 140, 'P', ''),
    ('G', 5, 'GCodeCublcSpline', 1, 242, 'ABCIJPQUVWXYZ', ''),
    ('G', 5.1, 'GCodeQuadraticSpline', 1, 242, 'ABCIJUVWXYZ', ''),
    ('G', 5.2, 'GCodeNURBS', 1, 242, 'ABCLPUVWXYZ', ''),
    ('G', 5.3, 'GCodeNURBSEnd', 1, 242, 'ABCLPUVWXYZ', ''),
    ('G', 7, 'GCodeLatheDiameterMode', 15, 210, '', ''),
    ('G', 8, 'GCodeLatheRadiusMode', 15, 210, '', ''),
    ('G', 10, 'GCodeSet', None, 230, 'ABCLPQRXYZ', ''),
    ('G', 17, 'GCodeSelectXYPlane', 2, 150, '', ''),
    ('G', 17.1, 'GCodeSelectUVPlane', 2, 150, '', ''),
    ('G', 18, 'GCodeSelectZXPlane', 2, 150, '', ''),
    ('G', 18.1, 'GCodeSelectWUPlane', 2, 150, '', ''),
    ('G', 19, 'GCodeSelectYZPlane', 2, 150, '', ''),
    ('G', 19.1, 'GCodeSelectVWPlane', 2, 150, '', ''),
    ('G', 20, 'GCodeUseInches', 6, 160, '', ''),
    ('G', 21, 'GCodeUseMillimeters', 6, 160, '', ''),
    ('G', 33, 'GCodeSpindleSyncMotion', 1, 242, 'ABCKUVWXYZ', ''),
    ('G', 33.1, 'GCodeRigidTapping', 1, 242, 'ABCKUVWXYZ', ''),
    ('G', 40, 'GCodeCutterRadiusCompOff', 7, 170, '', ''),
    ('G', 41, 'GCodeCutterCompLeft', 7, 170, 'D', ''),
    ('G', 41.1, 'GCodeDynamicCutterCompLeft', 7, 170, 'DL', ''),
    ('G', 42, 'GCodeCutterCompRight', 7, 170, 'D', ''),
    ('G', 42.1, 'GCodeDynamicCutterCompRight', 7, 170, 'DL', ''),
    ('G', 43, 'GCodeToolLengthOffset', 8, 180, 'H', ''),
    ('G', 43.1, 'GCodeDynamicToolLengthOffset', 8, 180, '', ''),
    ('G', 43.2, 'GCodeAddToolLengthOffset', 8, 180, 'H', ''),
    ('G', 49, 'GCodeCancelToolLengthOffset', 8, 180, '', ''),
    ('G', 53, 'GCodeMoveInMachineCoords', None, 240, '', ''),
    ('G', 54, 'GCodeSelectCoordinateSystem1', 12, 190, '', ''),
    ('G', 55, 'GCodeSelectCoordinateSystem2', 12, 190, '', ''),
    ('G', 56, 'GCodeSelectCoordinateSystem3', 12, 190, '', ''),
    ('G', 57, 'GCodeSelectCoordinateSystem4', 12, 190, '', ''),
    ('G', 58, 'GCodeSelectCoordinateSystem5', 12, 190, '', ''),
    ('G', 59, 'GCodeSelectCoordinateSystem6', 12, 190, '', ''),
    ('G', 59.1, 'GCodeSelectCoordinateSystem7', 12, 190, '', ''),
    ('G', 59.2, 'GCodeSelectCoordinateSystem8', 12, 190, '', ''),
    ('G', 59.3, 'GCodeSelectCoordinateSystem9', 12, 190, '', ''),
    ('G', 61, 'GCodeExactPathMode', 13, 200, '', ''),
    ('G', 61.1, 'GCodeExactStopMode', 13, 200, '', ''),
    ('G', 64, 'GCodePathBlendingMode', 13, 200, 'PQ', ''),
    ('G', 73, 'GCodeDrillingCycleChipBreaking', 1, 242, 'LQRUVWXYZ', 'QRUVWXYZ'),
    ('G', 76, 'GCodeThreadingCycle', 1, 242, 'EHIJKLPQRUVWXYZ', ''),
    ('G', 80, 'GCodeCancelCannedCycle', None, 241, 'ABCUVWXYZ', ''),
    ('G', 81, 'GCodeDrillingCycle', 1, 242, 'LPRUVWXYZ', 'PRUVWXYZ'),
    ('G', 82, 'GCodeDrillingCycleDwell', 1, 242, 'LPRUVWXYZ', 'PRUVWXYZ'),
    ('G', 83, 'GCodeDrillingCyclePeck', 1, 242, 'LQRUVWXYZ', 'QRUVWXYZ'),
    ('G', 85, 'GCodeBoringCycleFeedOut', 1, 242, 'LPRUVWXYZ', 'PRUVWXYZ'),
    ('G', 89, 'GCodeBoringCycleDwellFeedOut', 1, 242, 'LPRUVWXYZ', 'PRUVWXYZ'),
    ('G', 90, 'GCodeAbsoluteDistanceMode', 3, 210, '', ''),
    ('G', 90.1, 'GCodeAbsoluteArcDistanceMode', 4, 210, '', ''),
    ('G', 91, 'GCodeIncrementalDistanceMode', 3, 210, '', ''),
    ('G', 91.1, 'GCodeIncrementalArcDistanceMode', 4, 210, '', ''),
    ('G', 92, 'GCodeCoordSystemOffset', None, 230, '', ''),
    ('G', 92.3, 'GCodeRestoreCoordSystemOffset', None, 230, '', ''),
    ('G', 93, 'GCodeInverseTimeMode', 5, 30, '', ''),
    ('G', 94, 'GCodeUnitsPerMinuteMode', 5, 30, '', ''),
    ('G', 95, 'GCodeUnitsPerRevolution', 5, 30, '', ''),
    ('G', 96, 'GCodeSpindleConstantSurfaceSpeedMode', 14, 90, 'DS', ''),
    ('G', 97, 'GCodeSpindleRPMMode', 14, 90, 'D', ''),
    ('G', 98, 'GCodeCannedCycleReturnPrevLevel', 10, 220, '', ''),
    ('G', 99, 'GCodeCannedCycleReturnToR', 10, 220, '', ''),
    ('M', 0, 'GCodePauseProgram', 104, 250, '', ''),
    ('M', 1, 'GCodePauseProgramOptional', 104, 250, '', ''),
    ('M', 2, 'GCodeEndProgram', 104, 250, '', ''),
    ('M', 3, 'GCodeStartSpindleCW', 107, 90, '', ''),
    ('M', 4, 'GCodeStartSpindleCCW', 107, 90, '', ''),
    ('M', 5, 'GCodeStopSpindle', 107, 90, '', ''),
    ('M', 6, 'GCodeToolChange', None, 80, 'T', ''),
    ('M', 7, 'GCodeCoolantMistOn', 108, 110, '', ''),
    ('M', 8, 'GCodeCoolantFloodOn', 108, 110, '', ''),
    ('M', 9, 'GCodeCoolantOff', 108, 110, '', ''),
    ('M', 19, 'GCodeOrientSpindle', None, 90, '', ''),
    ('M', 30, 'GCodeEndProgramPalletShuttle', 104, 250, '', ''),
    ('M', 48, 'GCodeSpeedAndFeedOverrideOn', 109, 120, '', ''),
    ('M', 49, 'GCodeSpeedAndFeedOverrideOff', 109, 120, '', ''),
    ('M', 50, 'GCodeFeedOverride', None, 120, 'P', ''),
    ('M', 51, 'GCodeSpindleSpeedOverride', None, 120, 'P', ''),
    ('M', 52, 'GCodeAdaptiveFeed', None, 120, 'P', ''),
    ('M', 53, 'GCodeFeedStop', None, 120, 'P', ''),
    ('M', 60, 'GCodePalletChangePause', 104, 250, '', ''),
    ('M', 61, 'GCodeToolSetCurrent', None, 80, 'Q', ''),
    ('M', 62, 'GCodeDigitalOutputOnSyncd', None, 70, 'P', ''),
    ('M', 63, 'GCodeDigitalOutputOffSyncd', None, 70, 'P', ''),
    ('M', 64, 'GCodeDigitalOutputOn', None, 70, 'P', ''),
    ('M', 65, 'GCodeDigitalOutputOff', None, 70, 'P', ''),
    ('M', 66, 'GCodeWaitOnInput', None, 70, 'ELPQ', ''),
    ('M', 67, 'GCodeAnalogOutputSyncd', None, 70, 'T', ''),
    ('M', 68, 'GCodeAnalogOutputImmediate', None, 70, 'T', ''),
    ('G', 38.2, 'GCodeStraightProbe', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 38.3, 'GCodeStraightProbe', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 38.4, 'GCodeStraightProbe', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 38.5, 'GCodeStraightProbe', 1, 242, 'ABCUVWXYZ', ''),
    ('G', 28, 'GCodeGotoPredefinedPosition', None, 230, '', ''),
    ('G', 30, 'GCodeGotoPredefinedPosition', None, 230, '', ''),
    ('G', 28.1, 'GCodeSetPredefinedPosition', None, 230, '', ''),
    ('G', 30.1, 'GCodeSetPredefinedPosition', None, 230, '', ''),
    ('G', 92.1, 'GCodeResetCoordSystemOffset', None, 230, '', ''),
    ('G', 92.2, 'GCodeResetCoordSystemOffset', None, 230, '', ''),
]
# every value of the letter is the code
LETTERS = [
    ('F', 'GCodeFeedRate', 201, 40),
    ('S', 'GCodeSpindleSpeed', 202, 50),
    ('T', 'GCodeSelectTool', 203, 60),
    ('N', 'GCodeLineNumber', None, 0),
    ('O', 'GCodeProgramName', None, 1),
]
# classes and the word a code built without one gets
DEFAULTS = [('GCodeStraightProbe', 'G', 38.2), ('GCodeGotoPredefinedPosition', 'G', 28), ('GCodeSetPredefinedPosition', 'G', 28.1),
            ('GCodeResetCoordSystemOffset', 'G', 92.1), ('GCodeFeedRate', 'F', 0), ('GCodeSelectTool', 'T', '0'), ('GCodeSpindleSpeed', 'S', 0)]
GROUPS = {
    'motion': 1, 'plane_selection': 2, 'distance': 3, 'arc_ijk_distance': 4, 'feed_rate_mode': 5, 'units': 6, 'cutter_diameter_comp': 7,
    'tool_length_offset': 8, 'canned_cycles_return': 10, 'coordinate_system': 12, 'control_mode': 13, 'spindle_speed_mode': 14, 'lathe_diameter': 15,
    'stopping': 104, 'spindle': 107, 'coolant': 108, 'override_switches': 109, 'user_defined': 110, 'feed_rate': 201, 'spindle_speed': 202, 'tool': 203,
}
INT_LETTERS = 'LN'
TEXT_LETTERS = 'TO'
MOVES = [r for r in CODES if r[3] == 1 and not (r[0] == 'G' and r[1] in (73, 76, 81, 82, 83, 85, 89))]
CANNED = [r for r in CODES if r[0] == 'G' and r[1] in (73, 76, 81, 82, 83, 85, 89)]
NOT_MOVES = [r for r in CODES if r not in MOVES and r not in CANNED]


def row(letter, value):
    for r in CODES:
        if r[0] == letter and abs(r[1] - value) < 1e-9:
            return r
    for (l, k, g, rank) in LETTERS:
        if l == letter:
            return (l, value, k, g, rank, '', '')
    return None
