package main

// schemaText describes the constructs of an A2L file (ASAM MCD-2 MC 1.7 as far as the reader supports it) and the field of
// the delivered structures each of their parts is observed in. E: enumeration; N: construct; P: positional value (field, kind,
// presence flag); O: optional part (token, field, multiplicity, construct).
const schemaText = `E AddrTypeEnum PBYTE PWORD PLONG PLONGLONG DIRECT
E AttributeEnum CURVE_AXIS COM_AXIS FIX_AXIS RES_AXIS STD_AXIS INTERN EXTERN
E AxisAttr CURVE_AXIS COM_AXIS FIX_AXIS RES_AXIS STD_AXIS
E ByteOrderEnum LITTLE_ENDIAN BIG_ENDIAN MSB_LAST MSB_FIRST MSB_FIRST_MSW_LAST MSB_LAST_MSW_FIRST
E CalibrationAccessEnum CALIBRATION NO_CALIBRATION NOT_IN_MCD_SYSTEM OFFLINE_CALIBRATION
E CharType ASCII CURVE MAP CUBOID CUBE_4 CUBE_5 VAL_BLK VALUE
E ConversionTypeEnum IDENTICAL FORM LINEAR RAT_FUNC TAB_INTP TAB_NOINTP TAB_VERB
E DataSizeEnum BYTE WORD LONG
E DataTypeEnum UBYTE SBYTE UWORD SWORD ULONG SLONG A_UINT64 A_INT64 FLOAT16_IEEE FLOAT32_IEEE FLOAT64_IEEE
E EncodingEnum UTF8 UTF16 UTF32
E IndexModeEnum ALTERNATE_CURVES ALTERNATE_WITH_X ALTERNATE_WITH_Y COLUMN_DIR ROW_DIR
E IndexOrderEnum INDEX_INCR INDEX_DECR
E MemAttr INTERN EXTERN
E MemoryTypeEnum EEPROM EPROM FLASH RAM ROM REGISTER NOT_IN_ECU
E ModeEnum ABSOLUTE DIFFERENCE
E MonotonyTypeEnum MON_DECREASE MON_INCREASE STRICT_DECREASE STRICT_INCREASE MONOTONOUS STRICT_MON NOT_MON
E PrgTypeEnum PRG_CODE PRG_DATA PRG_RESERVED CALIBRATION_VARIABLES CODE DATA EXCLUDE_FROM_FLASH OFFLINE_DATA RESERVED SERAM VARIABLES
E TabConv TAB_INTP TAB_NOINTP
E TagEnum NUMERIC
E TriggerEnum ON_CHANGE ON_USER_REQUEST
E TypeEnum ASCII CURVE MAP CUBOID CUBE_4 CUBE_5 VAL_BLK VALUE DERIVED EXTENDED_SI
E UnitType DERIVED EXTENDED_SI
E VtabConv TAB_VERB
N A2ML -
 P formatSpecification accum formatSpecificationSet
N A2MLVersion -
 P VersionNo u16 versionNoSet
 P UpgradeNo u16 upgradeNoSet
N ASAP2Version -
 P versionNo u16 versionNoSet
 P upgradeNo u16 upgradeNoSet
N AddrEpk -
 P address s addressSet
N AlignmentByte -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentFloat16Ieee -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentFloat32Ieee -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentFloat64Ieee -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentInt64 -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentLong -
 P AlignmentBorder u16 AlignmentBorderSet
N AlignmentWord -
 P AlignmentBorder u16 AlignmentBorderSet
N Annotation -
 O ANNOTATION_LABEL annotationLabel one AnnotationLabel
 O ANNOTATION_ORIGIN annotationOrigin one AnnotationOrigin
 O /begin~ANNOTATION_TEXT annotationText list AnnotationText
N AnnotationLabel -
 P label s labelSet
N AnnotationOrigin -
 P origin s originSet
N AnnotationText -
 P annotationText accum annotationTextSet
N ArComponent -
 P componentType s componentTypeSet
 O AR_PROTOTYPE_OF arPrototypeOf one ArPrototypeOf
N ArPrototypeOf -
 P name s nameSet
N ArraySize -
 P number u16 numberSet
N AxisDescr -
 P attribute e:AxisAttr attributeSet
 P inputQuantity s inputQuantitySet
 P conversion s conversionSet
 P maxAxisPoints u16 maxAxisPointsSet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O /begin~ANNOTATION annotation list Annotation
 O AXIS_PTS_REF axisPtsRef one AxisPtsRef
 O BYTE_ORDER byteOrder one ByteOrder
 O CURVE_AXIS_REF curveAxisRef one CurveAxisRef
 O DEPOSIT deposit one Deposit
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FIX_AXIS_PAR fixAxisPar one FixAxisPar
 O FIX_AXIS_PAR_DIST fixAxisParDist one FixAxisParDist
 O /begin~FIX_AXIS_PAR_LIST fixAxisParList list FixAxisParList
 O FORMAT format one Format
 O MAX_GRAD maxGrad one MaxGrad
 O MONOTONY monotony one Monotony
 O PHYS_UNIT physUnit one PhysUnit
 O READ_ONLY readOnly one ReadOnly
 O STEP_SIZE stepSize one StepSize
N AxisPts -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P address s addressSet
 P inputQuantity s inputQuantitySet
 P depositIdent s depositIdentSet
 P maxDiff f maxDiffSet
 P conversion s conversionSet
 P maxAxisPoints u16 maxAxisPointsSet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O /begin~ANNOTATION annotation list Annotation
 O BYTE_ORDER byteOrder one ByteOrder
 O CALIBRATION_ACCESS calibrationAccess enum CalibrationAccessEnum
 O DEPOSIT deposit one Deposit
 O DISPLAY_IDENTIFIER displayIdentifier one DisplayIdentifier
 O ECU_ADDRESS_EXTENSION ecuAddressExtension one ECUAddressExtension
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FORMAT format one Format
 O /begin~FUNCTION_LIST functionList list FunctionList
 O GUARD_RAILS guardRails one GuardRails
 O /begin~IF_DATA ifData list IfData
 O MODEL_LINK modelLink one ModelLink
 O MONOTONY monotony one Monotony
 O PHYS_UNIT physUnit one PhysUnit
 O READ_ONLY readOnly one ReadOnly
 O REF_MEMORY_SEGMENT refMemorySegment one RefMemorySegment
 O STEP_SIZE stepSize one StepSize
 O SYMBOL_LINK symbolLink one SymbolLink
N AxisPts4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Addressing e:AddrTypeEnum AddressingSet
N AxisPts5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Addressing e:AddrTypeEnum AddressingSet
N AxisPtsRef -
 P axisPoints s axisPointsSet
N AxisPtsX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Addressing e:AddrTypeEnum AddressingSet
N AxisPtsY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Addressing e:AddrTypeEnum AddressingSet
N AxisPtsZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Addressing e:AddrTypeEnum AddressingSet
N AxisRescaleX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P MaxNumberOfRescalePairs u16 MaxNumberOfRescalePairsSet
 P IndexIncr e:IndexOrderEnum IndexIncrSet
 P Adressing e:AddrTypeEnum AdressingSet
N BitMask -
 P mask s maskSet
N BitOperation -
 O LEFT_SHIFT leftShift one LeftShift
 O RIGHT_SHIFT rightShift one RightShift
 O SIGN_EXTEND signExtend one SignExtend
N Blob -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P address s addressSet
 P size u32 sizeSet
 O /begin~ANNOTATION annotation list Annotation
 O ADDRESS_TYPE addressType enum AddrTypeEnum
 O CALIBRATION_ACCESS calibrationAccess enum CalibrationAccessEnum
 O DISPLAY_IDENTIFIER displayIdentifier one DisplayIdentifier
 O ECU_ADDRESS_EXTENSION ecuAddressExtension one ECUAddressExtension
 O /begin~IF_DATA IfData list IfData
 O MAX_REFRESH maxRefresh one MaxRefresh
 O MODEL_LINK modelLink one ModelLink
 O SYMBOL_LINK symbolLink one SymbolLink
N ByteOrder -
 P ByteOrder e:ByteOrderEnum ByteOrderSet
N CalibrationHandle -
 P handle list handleSet
 O CALIBRATION_HANDLE_TEXT calibrationHandleText one CalibrationHandleText
N CalibrationHandleText -
 P text s textSet
N CalibrationMethod -
 P method s methodSet
 P version u32 versionSet
 O /begin~CALIBRATION_HANDLE calibrationHandle list CalibrationHandle
N Characteristic -
 P Name s nameSet
 P LongIdentifier s longIdentifierSet
 P Type e:CharType TypeSet
 P Address s addressSet
 P Deposit s DepositSet
 P maxDiff f maxDiffSet
 P conversion s conversionSet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O /begin~ANNOTATION annotation list Annotation
 O /begin~AXIS_DESCR axisDescr list AxisDescr
 O BIT_MASK bitMask one BitMask
 O BYTE_ORDER byteOrder one ByteOrder
 O CALIBRATION_ACCESS calibrationAccess enum CalibrationAccessEnum
 O COMPARISON_QUANTITY comparisonQuantity one ComparisonQuantity
 O /begin~DEPENDENT_CHARACTERISTIC dependentCharacteristic list DependentCharacteristic
 O DISCRETE discrete one Discrete
 O DISPLAY_IDENTIFIER displayIdentifier one DisplayIdentifier
 O ENCODING encoding enum EncodingEnum
 O ECU_ADDRESS_EXTENSION ecuAddressExtension one ECUAddressExtension
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FORMAT format one Format
 O /begin~FUNCTION_LIST functionList list FunctionList
 O GUARD_RAILS guardRails one GuardRails
 O /begin~IF_DATA ifData list IfData
 O /begin~MAP_LIST mapList list MapList
 O MATRIX_DIM MatrixDim one MatrixDim
 O MAX_REFRESH maxRefresh one MaxRefresh
 O MODEL_LINK modelLink one ModelLink
 O NUMBER number one Number
 O PHYS_UNIT physUnit one PhysUnit
 O READ_ONLY readOnly one ReadOnly
 O REF_MEMORY_SEGMENT refMemorySegment one RefMemorySegment
 O STEP_SIZE stepSize one StepSize
 O SYMBOL_LINK symbolLink one SymbolLink
 O /begin~VIRTUAL_CHARACTERISTIC virtualCharacteristic list VirtualCharacteristic
N Coeffs -
 P A f ASet
 P B f BSet
 P C f CSet
 P D f DSet
 P E f ESet
 P F f FSet
N CoeffsLinear -
 P A f ASet
 P B f BSet
N ComparisonQuantity -
 P name s nameSet
N CompuMethod -
 P Name s NameSet
 P LongIdentifier s LongIdentifierSet
 P ConversionType e:ConversionTypeEnum ConversionTypeSet
 P Format s FormatSet
 P Unit s UnitSet
 O COEFFS Coeffs one Coeffs
 O COEFFS_LINEAR CoeffsLinear one CoeffsLinear
 O COMPU_TAB_REF CompuTabRef one CompuTabRef
 O /begin~FORMULA Formula list Formula
 O REF_UNIT RefUnit one RefUnit
 O STATUS_STRING_REF StatusStringRef one StatusStringRef
N CompuTab -
 P Name s NameSet
 P longIdentifier s longIdentifierSet
 P ConversionType e:TabConv ConversionTypeSet
 P NumberValuePairs count NumberValuePairsSet
 P InVal,OutVal tuples:ff InValSet,OutValSet
 O DEFAULT_VALUE DefaultValue one DefaultValue
 O DEFAULT_VALUE_NUMERIC DefaultValueNumeric one DefaultValueNumeric
N CompuTabRef -
 P ConversionTable s ConversionTableSet
N CompuVtab -
 P Name s NameSet
 P LongIdentifier s LongIdentifierSet
 P ConversionType e:VtabConv ConversionTypeSet
 P NumberValuePairs count NumberValuePairsSet
 P InVal,OutVal tuples:fs InValSet,OutValSet
 O DEFAULT_VALUE DefaultValue one DefaultValue
N CompuVtabRange -
 P Name s NameSet
 P LongIdentifier s LongIdentifierSet
 P NumberValueTriples count NumberValueTriplesSet
 P InValMin,InValMax,OutVal tuples:ffs InValMinSet,InValMaxSet,OutValSet
 O DEFAULT_VALUE DefaultValue one DefaultValue
N ConsistentExchangeKeyword flag
N CpuType -
 P cpu s cpuSet
N CurveAxisRef -
 P curveAxis s curveAxisSet
N Customer -
 P customer s customerSet
N CustomerNo -
 P number s numberSet
N DataSize -
 P size u16 sizeSet
N DefCharacteristic -
 P identifier list identifierSet
N DefaultValue -
 P DisplayString s DisplayStringSet
N DefaultValueNumeric -
 P DisplayValue f DisplayValueSet
N DependentCharacteristic -
 P formula s formulaSet
 P characteristic list characteristicSet
N Deposit -
 P mode e:ModeEnum modeSet
N Discrete flag
N DisplayIdentifier -
 P displayName s displayNameSet
N DistOp4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N DistOp5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N DistOpX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N DistOpY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N DistOpZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N ECUAddressExtension -
 P extension i16 extensionSet
N Ecu -
 P controlUnit s controlUnitSet
N EcuAddress -
 P address s addressSet
N EcuCalibrationOffset -
 P offset s offsetSet
N Epk -
 P identifier s identifierSet
N ErrorMask -
 P mask s maskSet
N ExtendedLimits -
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
N FixAxisPar -
 P offset i16 offsetSet
 P shift i16 shiftSet
 P numberapo u16 numberapoSet
N FixAxisParDist -
 P offset i16 offsetSet
 P distance i16 distanceSet
 P numberapo u16 numberapoSet
N FixAxisParList -
 P axisPtsValue flist axisPtsValueSet
N FixNoAxisPts4 -
 P NumberOfAxisPoints u16 NumberOfAxisPointsSet
N FixNoAxisPts5 -
 P NumberOfAxisPoints u16 NumberOfAxisPointsSet
N FixNoAxisPtsX -
 P NumberOfAxisPoints u16 NumberOfAxisPointsSet
N FixNoAxisPtsY -
 P NumberOfAxisPoints u16 NumberOfAxisPointsSet
N FixNoAxisPtsZ -
 P NumberOfAxisPoints u16 NumberOfAxisPointsSet
N FncValues -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
 P IndexMode e:IndexModeEnum IndexModeSet
 P Addresstype e:AddrTypeEnum AddresstypeSet
N Format -
 P formatString s formatStringSet
N Formula -
 P fx list fxSet
 O FORMULA_INV formulaInv one FormulaInv
N FormulaInv -
 P gx s gxSet
N Frame -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P scalingUnit u16 scalingUnitSet
 P rate u32 rateSet
 O FRAME_MEASUREMENT frameMeasurement one FrameMeasurement
 O /begin~IF_DATA ifData list IfData
N FrameMeasurement -
 P identifier list identifierSet
N Function -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 O /begin~ANNOTATION annotation list Annotation
 O /begin~AR_COMPONENT arComponent one ArComponent
 O /begin~DEF_CHARACTERISTIC defCharacteristic one DefCharacteristic
 O FUNCTION_VERSION functionVersion one FunctionVersion
 O /begin~IF_DATA ifData list IfData
 O /begin~IN_MEASUREMENT inMeasurement one InMeasurement
 O /begin~LOC_MEASUREMENT locMeasurement one LocMeasurement
 O /begin~OUT_MEASUREMENT outMeasurement one OutMeasurement
 O /begin~REF_CHARACTERISTIC refCharacteristic one RefCharacteristic
 O /begin~SUB_FUNCTION subFunction one SubFunction
N FunctionList -
 P name list nameSet
N FunctionVersion -
 P versionIdentifier s versionIdentifierSet
N Group -
 P groupName s groupNameSet
 P groupLongIdentifier s groupLongIdentifierSet
 O /begin~ANNOTATION annotation list Annotation
 O /begin~FUNCTION_LIST functionList one FunctionList
 O /begin~IF_DATA ifData list IfData
 O /begin~REF_CHARACTERISTIC refCharacteristic one RefCharacteristic
 O /begin~REF_MEASUREMENT refMeasurement one RefMeasurement
 O ROOT root one Root
 O /begin~SUB_GROUP subGroup one SubGroup
N GuardRails flag
N Header -
 P comment s commentSet
 O PROJECT_NO projectNo one ProjectNo
 O VERSION version one Version
N Identification -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N IfData -
 P name s nameSet
 P data list dataSet
N InMeasurement -
 P identifier list identifierSet
N Instance -
 P name s nameSet
 P LongIdentifier s longIdentifierSet
 P typeDefName s typeDefNameSet
 P address s addressSet
 O /begin~ANNOTATION annotation list Annotation
 O ADDRESS_TYPE addressType enum AddrTypeEnum
 O CALIBRATION_ACCESS calibrationAccess enum CalibrationAccessEnum
 O DISPLAY_IDENTIFIER displayIdentifier one DisplayIdentifier
 O ECU_ADDRESS_EXTENSION ecuAddressExtension one ECUAddressExtension
 O /begin~IF_DATA ifData list IfData
 O MATRIX_DIM matrixDim one MatrixDim
 O MAX_REFRESH maxRefresh one MaxRefresh
 O MODEL_LINK modelLink one ModelLink
 O /begin~OVERWRITE overwrite one Overwrite
 O READ_WRITE readWrite one ReadWrite
 O SYMBOL_LINK symbolLink one SymbolLink
N Layout -
 P indexMode e:IndexModeEnum indexModeSet
N LeftShift -
 P bitcount u32 bitcountSet
N Limits -
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
N LocMeasurement -
 P identifier list identifierSet
N MapList -
 P name list nameSet
N MatrixDim -
 P DimX u16 DimXSet
 P DimY u16 DimYSet
 P DimZ u16 DimZSet
 P Dim4 u16 Dim4Set
 P Dim5 u16 Dim5Set
N MaxGrad -
 P maxGradient f maxGradientSet
N MaxRefresh -
 P scalingUnit u16 scalingUnitSet
 P rate u32 rateSet
N Measurement -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P datatype e:DataTypeEnum datatypeSet
 P conversion s conversionSet
 P resolution u16 resolutionSet
 P accuracy f accuracySet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O /begin~ANNOTATION annotation list Annotation
 O ARRAY_SIZE arraySize one ArraySize
 O BIT_MASK bitMask one BitMask
 O /begin~BIT_OPERATION bitOperation one BitOperation
 O BYTE_ORDER byteOrder one ByteOrder
 O DISCRETE discrete one Discrete
 O DISPLAY_IDENTIFIER displayIdentifier one DisplayIdentifier
 O ECU_ADDRESS ecuAddress one EcuAddress
 O ECU_ADDRESS_EXTENSION ecuAddressExtension one ECUAddressExtension
 O ERROR_MASK errorMask one ErrorMask
 O FORMAT format one Format
 O /begin~FUNCTION_LIST functionList one FunctionList
 O /begin~IF_DATA ifData list IfData
 O LAYOUT layout one Layout
 O MATRIX_DIM matrixDim one MatrixDim
 O MAX_REFRESH maxRefresh one MaxRefresh
 O MODEL_LINK modelLink one ModelLink
 O PHYS_UNIT physUnit one PhysUnit
 O READ_WRITE readWrite one ReadWrite
 O REF_MEMORY_SEGMENT refMemorySegment one RefMemorySegment
 O SYMBOL_LINK symbolLink one SymbolLink
 O /begin~VIRTUAL virtual one Virtual
N MemoryLayout -
 P prgType e:PrgTypeEnum prgTypeSet
 P address s addressSet
 P size s sizeSet
 P offset i32x5 offsetSet
 O /begin~IF_DATA ifData list IfData
N MemorySegment -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P prgType e:PrgTypeEnum prgTypeSet
 P memoryType e:MemoryTypeEnum memoryTypeSet
 P attribute e:MemAttr attributeSet
 P address s addressSet
 P size s sizeSet
 P offset sx5 offsetSet
 O /begin~IF_DATA ifData list IfData
N ModCommon -
 P comment s commentSet
 O ALIGNMENT_BYTE AlignmentByte one AlignmentByte
 O ALIGNMENT_FLOAT16_IEEE AlignmentFloat16Ieee one AlignmentFloat16Ieee
 O ALIGNMENT_FLOAT32_IEEE AlignmentFloat32Ieee one AlignmentFloat32Ieee
 O ALIGNMENT_FLOAT64_IEEE AlignmentFloat64Ieee one AlignmentFloat64Ieee
 O ALIGNMENT_INT64 AlignmentInt64 one AlignmentInt64
 O ALIGNMENT_LONG AlignmentLong one AlignmentLong
 O ALIGNMENT_WORD AlignmentWord one AlignmentWord
 O BYTE_ORDER ByteOrder one ByteOrder
 O DATA_SIZE dataSize one DataSize
 O DEPOSIT deposit one Deposit
N ModPar -
 P comment s commentSet
 O ADDR_EPK addrEpk list AddrEpk
 O /begin~CALIBRATION_METHOD calibrationMethod list CalibrationMethod
 O CPU_TYPE cpuType one CpuType
 O CUSTOMER customer one Customer
 O CUSTOMER_NO customerNo one CustomerNo
 O ECU ecu one Ecu
 O ECU_CALIBRATION_OFFSET ecuCalibrationOffset one EcuCalibrationOffset
 O EPK epk one Epk
 O /begin~MEMORY_LAYOUT memoryLayout list MemoryLayout
 O /begin~MEMORY_SEGMENT memorySegment list MemorySegment
 O NO_OF_INTERFACES noOfInterfaces one NoOfInterfaces
 O PHONE_NO phoneNo one PhoneNo
 O SUPPLIER supplier one Supplier
 O SYSTEM_CONSTANT SystemConstants map SystemConstant
 O USER user one User
 O VERSION version one Version
N ModelLink -
 P modelName s modelNameSet
N Module -
 P Name s nameSet
 P longIdentifier s longIdentifierSet
 O /begin~A2ML a2ml one A2ML
 O /begin~AXIS_PTS AxisPts map AxisPts
 O /begin~BLOB blobs map Blob
 O /begin~CHARACTERISTIC Characteristics map Characteristic
 O /begin~COMPU_METHOD CompuMethods map CompuMethod
 O /begin~COMPU_TAB CompuTabs map CompuTab
 O /begin~COMPU_VTAB CompuVTabs map CompuVtab
 O /begin~COMPU_VTAB_RANGE CompuVTabRanges map CompuVtabRange
 O /begin~FRAME frame one Frame
 O /begin~FUNCTION Functions map Function
 O /begin~GROUP Groups map Group
 O /begin~IF_DATA ifData map IfData
 O /begin~INSTANCE instances map Instance
 O /begin~MEASUREMENT Measurements map Measurement
 O /begin~MOD_COMMON ModCommon one ModCommon
 O /begin~MOD_PAR ModPar one ModPar
 O /begin~RECORD_LAYOUT RecordLayouts map RecordLayout
 O /begin~TRANSFORMER transformers map Transformer
 O /begin~TYPEDEF_AXIS typeDefAxis map TypeDefAxis
 O /begin~TYPEDEF_BLOB typeDefBlobs map TypeDefBlob
 O /begin~TYPEDEF_CHARACTERISTIC typeDefCharacteristics map TypeDefCharacteristic
 O /begin~TYPEDEF_MEASUREMENT typeDefMeasurements map TypeDefMeasurement
 O /begin~TYPEDEF_STRUCTURE typeDefStructures map TypeDefStructure
 O /begin~UNIT Units map Unit
 O /begin~USER_RIGHTS userRights map UserRights
 O /begin~VARIANT_CODING variantCoding one VariantCoding
N Monotony -
 P monotony e:MonotonyTypeEnum monotonySet
N NoAxisPts4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N NoAxisPts5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N NoAxisPtsX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N NoAxisPtsY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N NoAxisPtsZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N NoOfInterfaces -
 P num u16 numSet
N NoRescaleX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N Number -
 P number u16 numberSet
N Offset4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N Offset5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N OffsetX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N OffsetY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N OffsetZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N OutMeasurement -
 P identifier list identifierSet
N Overwrite -
 P name s nameSet
 P axisNumer u16 axisNumberSet
 O CONVERSION conversion str -
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FORMAT format one Format
 O INPUT_QUANTITY inputQuantity str -
 O LIMITS limits one Limits
 O MONOTONY monotony one Monotony
 O PHYS_UNIT physUnit one PhysUnit
N PhoneNo -
 P telnum s telnumSet
N PhysUnit -
 P unit s unitSet
N Project -
 P Name s nameSet
 P longIdentifier s longIdentifierSet
 O /begin~HEADER header one Header
 O /begin~MODULE Modules list Module
N ProjectNo -
 P projectNumber s projectNumberSet
N ReadOnly flag
N ReadWrite flag
N RecordLayout -
 P Name s NameSet
 O ALIGNMENT_BYTE AlignmentByte one AlignmentByte
 O ALIGNMENT_FLOAT16_IEEE AlignmentFloat16Ieee one AlignmentFloat16Ieee
 O ALIGNMENT_FLOAT32_IEEE AlignmentFloat32Ieee one AlignmentFloat32Ieee
 O ALIGNMENT_FLOAT64_IEEE AlignmentFloat64Ieee one AlignmentFloat64Ieee
 O ALIGNMENT_INT64 AlignmentInt64 one AlignmentInt64
 O ALIGNMENT_LONG AlignmentLong one AlignmentLong
 O ALIGNMENT_WORD AlignmentWord one AlignmentWord
 O AXIS_PTS_X AxisPtsX one AxisPtsX
 O AXIS_PTS_Y AxisPtsY one AxisPtsY
 O AXIS_PTS_Z AxisPtsZ one AxisPtsZ
 O AXIS_PTS_4 AxisPts4 one AxisPts4
 O AXIS_PTS_5 AxisPts5 one AxisPts5
 O AXIS_RESCALE_X AxisRescaleX one AxisRescaleX
 O DIST_OP_X DistOpX one DistOpX
 O DIST_OP_Y DistOpY one DistOpY
 O DIST_OP_Z DistOpZ one DistOpZ
 O DIST_OP_4 DistOp4 one DistOp4
 O DIST_OP_5 DistOp5 one DistOp5
 O FIX_NO_AXIS_PTS_X FixNoAxisPtsX one FixNoAxisPtsX
 O FIX_NO_AXIS_PTS_Y FixNoAxisPtsY one FixNoAxisPtsY
 O FIX_NO_AXIS_PTS_Z FixNoAxisPtsZ one FixNoAxisPtsZ
 O FIX_NO_AXIS_PTS_4 FixNoAxisPts4 one FixNoAxisPts4
 O FIX_NO_AXIS_PTS_5 FixNoAxisPts5 one FixNoAxisPts5
 O FNC_VALUES FncValues one FncValues
 O IDENTIFICATION Identification one Identification
 O NO_AXIS_PTS_X NoAxisPtsX one NoAxisPtsX
 O NO_AXIS_PTS_Y NoAxisPtsY one NoAxisPtsY
 O NO_AXIS_PTS_Z NoAxisPtsZ one NoAxisPtsZ
 O NO_AXIS_PTS_4 NoAxisPts4 one NoAxisPts4
 O NO_AXIS_PTS_5 NoAxisPts5 one NoAxisPts5
 O NO_RESCALE_X NoRescaleX one NoRescaleX
 O OFFSET_X OffsetX one OffsetX
 O OFFSET_Y OffsetY one OffsetY
 O OFFSET_Z OffsetZ one OffsetZ
 O OFFSET_4 Offset4 one Offset4
 O OFFSET_5 Offset5 one Offset5
 O RESERVED Reserved one Reserved
 O RIP_ADDR_W RipAddrW one RipAddrW
 O RIP_ADDR_X RipAddrX one RipAddrX
 O RIP_ADDR_Y RipAddrY one RipAddrY
 O RIP_ADDR_Z RipAddrZ one RipAddrZ
 O RIP_ADDR_4 RipAddr4 one RipAddr4
 O RIP_ADDR_5 RipAddr5 one RipAddr5
 O SRC_ADDR_X SrcAddrX one SrcAddrX
 O SRC_ADDR_Y SrcAddrY one SrcAddrY
 O SRC_ADDR_Z SrcAddrZ one SrcAddrZ
 O SRC_ADDR_4 SrcAddr4 one SrcAddr4
 O SRC_ADDR_5 SrcAddr5 one SrcAddr5
 O SHIFT_OP_X ShiftOpX one ShiftOpX
 O SHIFT_OP_Y ShiftOpY one ShiftOpY
 O SHIFT_OP_Z ShiftOpZ one ShiftOpZ
 O SHIFT_OP_4 ShiftOp4 one ShiftOp4
 O SHIFT_OP_5 ShiftOp5 one ShiftOp5
 O STATIC_RECORD_LAYOUT StaticRecordLayout one StaticRecordLayout
 O STATIC_ADDRESS_OFFSETS StaticAddressOffsets one StaticAddressOffsets
N RefCharacteristic -
 P identifier list identifierSet
N RefGroup -
 P identifier list identifierSet
N RefMeasurement -
 P identifier list identifierSet
N RefMemorySegment -
 P name s nameSet
N RefUnit -
 P unit s unitSet
N Reserved -
 P Position u16 PositionSet
 P DataSize e:DataSizeEnum DataSizeSet
N RightShift -
 P bitcount u32 bitcountSet
N RipAddr4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N RipAddr5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N RipAddrW -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N RipAddrX -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N RipAddrY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N RipAddrZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N Root flag
N Root_ -
 O ASAP2_VERSION Asap2Version one ASAP2Version
 O A2ML_VERSION A2mlVersion one A2MLVersion
 O /begin~PROJECT Project one Project
N ShiftOp4 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N ShiftOp5 -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N ShiftOpX -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N ShiftOpY -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N ShiftOpZ -
 P Position u16 PositionSet
 P Datatype e:DataTypeEnum DatatypeSet
N SiExponents -
 P length i16 lengthSet
 P mass i16 massSet
 P time i16 timeSet
 P electricCurrent i16 electricCurrentSet
 P temperature i16 temperatureSet
 P amountOfSubstance i16 amountOfSubstanceSet
 P luminousIntensity i16 luminousIntensitySet
N SignExtend flag
N SrcAddr4 -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N SrcAddr5 -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N SrcAddrX -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N SrcAddrY -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N SrcAddrZ -
 P position u16 positionSet
 P datatype e:DataTypeEnum datatypeSet
N StaticAddressOffsets flag
N StaticRecordLayout flag
N StatusStringRef -
 P ConversionTable s ConversionTableSet
N StepSize -
 P stepSize f stepSizeSet
N StructureComponent -
 P name s nameSet
 P typeDefName s typeDefNameSet
 P addressOffset s addressOffsetSet
 O ADDRESS_TYPE addressType enum AddrTypeEnum
 O LAYOUT layout one Layout
 O MATRIX_DIM matrixDim one MatrixDim
 O SYMBOL_TYPE_LINK symbolTypeLink one SymbolTypeLink
N SubFunction -
 P identifier list identifierSet
N SubGroup -
 P identifier list identifierSet
N Supplier -
 P manufacturer s manufacturerSet
N SymbolLink -
 P symbolName s symbolNameSet
 P offset i32 offsetSet
N SymbolTypeLink -
 P symbolName s -
N SystemConstant -
 P Name s NameSet
 P Value s ValueSet
N Transformer -
 P name s nameSet
 P version s versionSet
 P executable32 s executable32Set
 P executable64 s executable64Set
 P timeOut u32 timeOutSet
 P trigger e:TriggerEnum triggerSet
 P inverseTransformer s inverseTransformerSet
 O /begin~TRANSFORMER_IN_OBJECTS transformerInObjects one TransformerInObject
 O /begin~TRANSFORMER_OUT_OBJECTS transformerOutObjects one TransformerOutObject
N TransformerInObject -
 P identifier list identifierSet
N TransformerOutObject -
 P identifier list identifierSet
N TypeDefAxis -
 P name s nameSet
 P LongIdentifier s longIdentifierSet
 P inputQuantity s inputQuantitySet
 P recordLayout s recordLayoutSet
 P maxDiff f maxDiffSet
 P conversion s conversionSet
 P maxAxisPoints u16 maxAxisPointsSet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O BYTE_ORDER byteOrder one ByteOrder
 O DEPOSIT deposit one Deposit
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FORMAT format one Format
 O MONOTONY monotony one Monotony
 O PHYS_UNIT physUnit one PhysUnit
 O STEP_SIZE stepSize one StepSize
N TypeDefBlob -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P size u32 sizeSet
 O ADDRESS_TYPE addressType enum AddrTypeEnum
N TypeDefCharacteristic -
 P name s nameSet
 P LongIdentifier s longIdentifierSet
 P Type e:CharType TypeSet
 P recordLayout s recordLayoutSet
 P maxDiff f maxDiffSet
 P conversion s conversionSet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O /begin~AXIS_DESCR axisDescr list AxisDescr
 O BIT_MASK bitMask one BitMask
 O BYTE_ORDER byteOrder one ByteOrder
 O DISCRETE discrete one Discrete
 O ENCODING encoding enum EncodingEnum
 O EXTENDED_LIMITS extendedLimits one ExtendedLimits
 O FORMAT format one Format
 O MATRIX_DIM matrixDim one MatrixDim
 O NUMBER number one Number
 O PHYS_UNIT physUnit one PhysUnit
 O STEP_SIZE stepSize one StepSize
N TypeDefMeasurement -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P datatype e:DataTypeEnum datatypeSet
 P conversion s conversionSet
 P resolution u16 resolutionSet
 P accuracy f accuracySet
 P lowerLimit f lowerLimitSet
 P upperLimit f upperLimitSet
 O BIT_MASK bitMask one BitMask
 O /begin~BIT_OPERATION bitOperation one BitOperation
 O BYTE_ORDER byteOrder one ByteOrder
 O DISCRETE discrete one Discrete
 O ERROR_MASK errorMask one ErrorMask
 O FORMAT format one Format
 O LAYOUT layout one Layout
 O MATRIX_DIM matrixDim one MatrixDim
 O PHYS_UNIT physUnit one PhysUnit
N TypeDefStructure -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P size u32 sizeSet
 O ADDRESS_TYPE addressType enum AddrTypeEnum
 O CONSISTENT_EXCHANGE consistentExchange one ConsistentExchangeKeyword
 O /begin~STRUCTURE_COMPONENT structureComponent list StructureComponent
 O SYMBOL_TYPE_LINK symbolTypeLink one SymbolTypeLink
N Unit -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P display s displaySet
 P Type e:UnitType TypeSet
 O REF_UNIT refUnit one RefUnit
 O SI_EXPONENTS siExponents one SiExponents
 O UNIT_CONVERSION unitConversion one UnitConversion
N UnitConversion -
 P gradient f gradientSet
 P offset f offsetSet
N User -
 P userName s userNameSet
N UserRights -
 P userLevelId s userLevelIdSet
 O READ_ONLY readOnly one ReadOnly
 O /begin~REF_GROUP refGroup list RefGroup
N VarAddress -
 P address list addressSet
N VarCharacteristic -
 P name s nameSet
 P identCriterionName list identCriterionNameSet
 O /begin~VAR_ADDRESS varAddress list VarAddress
N VarCriterion -
 P name s nameSet
 P longIdentifier s longIdentifierSet
 P value list valueSet
 O VAR_MEASUREMENT varMeasurement one VarMeasurement
 O VAR_SELECTION_CHARACTERISTIC varSelectionCharacteristic one VarSelectionCharacteristic
N VarForbiddenComb -
 P criterionName,criterionValue pairs:ss criterionNameSet,criterionValueSet
N VarMeasurement -
 P name s nameSet
N VarNaming -
 P tag e:TagEnum tagSet
N VarSelectionCharacteristic -
 P name s nameSet
N VarSeparator -
 P separator s separatorSet
N VariantCoding -
 O VAR_SEPARATOR varSeparator one VarSeparator
 O /begin~VAR_CHARACTERISTIC varCharacteristic list VarCharacteristic
 O /begin~VAR_CRITERION varCriterion list VarCriterion
 O /begin~VAR_FORBIDDEN_COMB varForbiddenComb list VarForbiddenComb
 O VAR_NAMING varNaming one VarNaming
N Version -
 P versionIdentifier s versionIdentifierSet
N Virtual -
 P measuringChannel list measuringChannelSet
N VirtualCharacteristic -
 P formula s formulaSet
 P characteristic list characteristicSet
`
