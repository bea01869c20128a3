// Code generated by genall.sh. DO NOT EDIT.

package props

var All = map[string]func(){
	"C01_BigInt": C01_BigInt,
	"C01_Decimal": C01_Decimal,
	"C01_Deep": C01_Deep,
	"C01_Double": C01_Double,
	"C01_KindsInside": C01_KindsInside,
	"C01_ListOfScalars": C01_ListOfScalars,
	"C01_ListSizes": C01_ListSizes,
	"C01_Long": C01_Long,
	"C01_LongText": C01_LongText,
	"C01_Map": C01_Map,
	"C01_MapNumericText": C01_MapNumericText,
	"C01_MapSizes": C01_MapSizes,
	"C01_Nested": C01_Nested,
	"C01_NullBool": C01_NullBool,
	"C01_Raw": C01_Raw,
	"C01_Sparse": C01_Sparse,
	"C01_Unknown": C01_Unknown,
	"C01_Utf8": C01_Utf8,
	"C01_WideNumbers": C01_WideNumbers,
	"C01_Words": C01_Words,
	"C02_BigInt": C02_BigInt,
	"C02_BinAnyLength": C02_BinAnyLength,
	"C02_Decimal": C02_Decimal,
	"C02_Double": C02_Double,
	"C02_ExtAnyLength": C02_ExtAnyLength,
	"C02_List": C02_List,
	"C02_ListAnyLength": C02_ListAnyLength,
	"C02_Long": C02_Long,
	"C02_Map": C02_Map,
	"C02_MapAnyLength": C02_MapAnyLength,
	"C02_NullBool": C02_NullBool,
	"C02_PackerScalars": C02_PackerScalars,
	"C02_Raw": C02_Raw,
	"C02_Sparse": C02_Sparse,
	"C02_StrAnyLength": C02_StrAnyLength,
	"C02_Unknown": C02_Unknown,
	"C02_Utf8": C02_Utf8,
	"C02_Words": C02_Words,
	"C03_BigNumbers": C03_BigNumbers,
	"C03_Binaries": C03_Binaries,
	"C03_CollectionKeys": C03_CollectionKeys,
	"C03_Doubles": C03_Doubles,
	"C03_EqualKeysMany": C03_EqualKeysMany,
	"C03_Extensions": C03_Extensions,
	"C03_Floats": C03_Floats,
	"C03_Integers": C03_Integers,
	"C03_LargeOrder": C03_LargeOrder,
	"C03_Lists": C03_Lists,
	"C03_ManyElements": C03_ManyElements,
	"C03_MapKeys": C03_MapKeys,
	"C03_MapOrder": C03_MapOrder,
	"C03_NilBool": C03_NilBool,
	"C03_NumberKeys": C03_NumberKeys,
	"C03_OverflowInside": C03_OverflowInside,
	"C03_ParserRejects": C03_ParserRejects,
	"C03_ParserSizes": C03_ParserSizes,
	"C03_SingleInside": C03_SingleInside,
	"C03_Strings": C03_Strings,
	"C03_Words": C03_Words,
	"C04_AnyBigInt": C04_AnyBigInt,
	"C04_AnyBytes": C04_AnyBytes,
	"C04_AnyBytesDecode": C04_AnyBytesDecode,
	"C04_AnyCollection": C04_AnyCollection,
	"C04_AnyDecimal": C04_AnyDecimal,
	"C04_AnyDecimalExponent": C04_AnyDecimalExponent,
	"C04_AnyKeys": C04_AnyKeys,
	"C04_AnyNumber": C04_AnyNumber,
	"C04_DeclaredSizes": C04_DeclaredSizes,
	"C04_Nested": C04_Nested,
	"C05_BigInt": C05_BigInt,
	"C05_Collections": C05_Collections,
	"C05_Elements": C05_Elements,
	"C05_Inside": C05_Inside,
	"C05_Kinds": C05_Kinds,
	"C05_Large": C05_Large,
	"C05_Long": C05_Long,
	"C05_LongForms": C05_LongForms,
	"C05_ManyElements": C05_ManyElements,
	"C05_Nested": C05_Nested,
	"C05_Scalars": C05_Scalars,
	"C05_Sizes": C05_Sizes,
	"C06_AnyBytes": C06_AnyBytes,
	"C06_Elements": C06_Elements,
	"C06_Failing": C06_Failing,
	"C06_FailingBehind": C06_FailingBehind,
	"C06_Kinds": C06_Kinds,
	"C06_Lengths": C06_Lengths,
	"C06_Long": C06_Long,
	"C06_Message": C06_Message,
	"C06_Pauses": C06_Pauses,
	"C06_SameUnpacker": C06_SameUnpacker,
	"C06_Sequence": C06_Sequence,
	"C07_Lengths": C07_Lengths,
	"C07_Outputs": C07_Outputs,
	"C07_OutputsOfTwo": C07_OutputsOfTwo,
	"C07_Raw": C07_Raw,
	"C07_RawLengths": C07_RawLengths,
	"C07_ReadTwice": C07_ReadTwice,
	"C07_Reader": C07_Reader,
	"C07_UnpackCopy": C07_UnpackCopy,
	"C08_AllForms": C08_AllForms,
	"C08_EntryOrder": C08_EntryOrder,
	"C08_EqualKeys": C08_EqualKeys,
	"C08_HashOfLong": C08_HashOfLong,
	"C08_InsertionOrder": C08_InsertionOrder,
	"C08_Large": C08_Large,
	"C08_LongKeys": C08_LongKeys,
	"C08_ManyEntries": C08_ManyEntries,
	"C08_MapOf": C08_MapOf,
	"C08_MapOfTwice": C08_MapOfTwice,
	"C08_Mutability": C08_Mutability,
	"C08_MutabilityJSON": C08_MutabilityJSON,
	"C08_NilForms": C08_NilForms,
	"C08_Numbers": C08_Numbers,
	"C08_Own": C08_Own,
	"C08_SparseOrder": C08_SparseOrder,
	"C08_Words": C08_Words,
	"C09_Elements": C09_Elements,
	"C09_Nested": C09_Nested,
	"C09_Nil": C09_Nil,
	"C09_Packer": C09_Packer,
	"C09_Stream": C09_Stream,
	"C09_Write": C09_Write,
	"C09_WriteNth": C09_WriteNth,
	"C09_WriteSizes": C09_WriteSizes,
	"C10_CopyOf": C10_CopyOf,
	"C10_KindsOfCopies": C10_KindsOfCopies,
	"C10_KindsOfLists": C10_KindsOfLists,
	"C10_KindsOfMaps": C10_KindsOfMaps,
	"C10_ListNil": C10_ListNil,
	"C10_ListSources": C10_ListSources,
	"C10_ListTree": C10_ListTree,
	"C10_ListTree3": C10_ListTree3,
	"C10_LongDecoded": C10_LongDecoded,
	"C10_MapSources": C10_MapSources,
	"C10_MapTree": C10_MapTree,
	"C10_MapTree3": C10_MapTree3,
	"C10_MapTreeDuplicates": C10_MapTreeDuplicates,
	"C10_Nested": C10_Nested,
	"C10_ReturnedSlices": C10_ReturnedSlices,
	"C10_SliceCopy": C10_SliceCopy,
	"C11_AnyPosition": C11_AnyPosition,
	"C11_AnyPositions": C11_AnyPositions,
	"C11_Constructors": C11_Constructors,
	"C11_Far": C11_Far,
	"C11_Kinds": C11_Kinds,
	"C11_Large": C11_Large,
	"C11_Long": C11_Long,
	"C11_Nil": C11_Nil,
	"C11_OneOp": C11_OneOp,
	"C11_Runs": C11_Runs,
	"C11_Self": C11_Self,
	"C11_ThreeOps": C11_ThreeOps,
	"C11_Twins": C11_Twins,
	"C11_TwoOps": C11_TwoOps,
	"C12_AnyKeys": C12_AnyKeys,
	"C12_CopyOf": C12_CopyOf,
	"C12_Decoded": C12_Decoded,
	"C12_Entries": C12_Entries,
	"C12_Kinds": C12_Kinds,
	"C12_Large": C12_Large,
	"C12_Long": C12_Long,
	"C12_LongKeys": C12_LongKeys,
	"C12_MapOf": C12_MapOf,
	"C12_Mixed": C12_Mixed,
	"C12_Nil": C12_Nil,
	"C12_OneOp": C12_OneOp,
	"C12_OwnEntries": C12_OwnEntries,
	"C12_Runs": C12_Runs,
	"C12_ThreeOps": C12_ThreeOps,
	"C12_Twins": C12_Twins,
	"C12_TwoOps": C12_TwoOps,
	"C12_Words": C12_Words,
	"C13_AnyPosition": C13_AnyPosition,
	"C13_AnyPositions": C13_AnyPositions,
	"C13_Far": C13_Far,
	"C13_Kinds": C13_Kinds,
	"C13_Large": C13_Large,
	"C13_Long": C13_Long,
	"C13_Nil": C13_Nil,
	"C13_OneOp": C13_OneOp,
	"C13_Runs": C13_Runs,
	"C13_Self": C13_Self,
	"C13_ThreeOps": C13_ThreeOps,
	"C13_Twins": C13_Twins,
	"C13_TwoOps": C13_TwoOps,
	"C14_AnyKeys": C14_AnyKeys,
	"C14_CopyOf": C14_CopyOf,
	"C14_Decoded": C14_Decoded,
	"C14_Entries": C14_Entries,
	"C14_Kinds": C14_Kinds,
	"C14_Large": C14_Large,
	"C14_Long": C14_Long,
	"C14_LongKeys": C14_LongKeys,
	"C14_MapOf": C14_MapOf,
	"C14_Mixed": C14_Mixed,
	"C14_Nil": C14_Nil,
	"C14_OneOp": C14_OneOp,
	"C14_OwnEntries": C14_OwnEntries,
	"C14_Runs": C14_Runs,
	"C14_ThreeOps": C14_ThreeOps,
	"C14_Twins": C14_Twins,
	"C14_TwoOps": C14_TwoOps,
	"C14_Words": C14_Words,
	"C15_Decoded": C15_Decoded,
	"C15_Dense": C15_Dense,
	"C15_Entries": C15_Entries,
	"C15_Far": C15_Far,
	"C15_Items": C15_Items,
	"C15_Kinds": C15_Kinds,
	"C15_Large": C15_Large,
	"C15_Long": C15_Long,
	"C15_Negative": C15_Negative,
	"C15_Nil": C15_Nil,
	"C15_Of": C15_Of,
	"C15_OneOp": C15_OneOp,
	"C15_OwnItems": C15_OwnItems,
	"C15_Runs": C15_Runs,
	"C15_ThreeOps": C15_ThreeOps,
	"C15_Twins": C15_Twins,
	"C15_TwoOps": C15_TwoOps,
	"C15_Wide": C15_Wide,
	"C16_Empty": C16_Empty,
	"C16_Entry": C16_Entry,
	"C16_ImmutableList": C16_ImmutableList,
	"C16_ImmutableMap": C16_ImmutableMap,
	"C16_ImmutableMapOfEntries": C16_ImmutableMapOfEntries,
	"C16_Item": C16_Item,
	"C16_Kinds": C16_Kinds,
	"C16_Large": C16_Large,
	"C16_List": C16_List,
	"C16_ListTwice": C16_ListTwice,
	"C16_Map": C16_Map,
	"C16_MapSources": C16_MapSources,
	"C16_Nested": C16_Nested,
	"C16_OwnEntries": C16_OwnEntries,
	"C16_Sparse": C16_Sparse,
	"C16_SparseSources": C16_SparseSources,
	"C16_Twins": C16_Twins,
	"C16_Unchanged": C16_Unchanged,
	"C16_Words": C16_Words,
	"C17_Bool": C17_Bool,
	"C17_Decimal": C17_Decimal,
	"C17_Double": C17_Double,
	"C17_DoubleInf": C17_DoubleInf,
	"C17_DoubleLong": C17_DoubleLong,
	"C17_DoubleOther": C17_DoubleOther,
	"C17_Entry": C17_Entry,
	"C17_Exponents": C17_Exponents,
	"C17_Item": C17_Item,
	"C17_Kinds": C17_Kinds,
	"C17_Large": C17_Large,
	"C17_List": C17_List,
	"C17_Long": C17_Long,
	"C17_LongBig": C17_LongBig,
	"C17_LongDecimal": C17_LongDecimal,
	"C17_LongStrings": C17_LongStrings,
	"C17_LongText": C17_LongText,
	"C17_Map": C17_Map,
	"C17_NaN": C17_NaN,
	"C17_Nested": C17_Nested,
	"C17_NilElements": C17_NilElements,
	"C17_Own": C17_Own,
	"C17_Reflexive": C17_Reflexive,
	"C17_Sparse": C17_Sparse,
	"C17_String": C17_String,
	"C17_Symmetric": C17_Symmetric,
	"C17_Transitive": C17_Transitive,
	"C17_TransitiveDoubles": C17_TransitiveDoubles,
	"C17_TwoSparse": C17_TwoSparse,
	"C17_Unknown": C17_Unknown,
	"C17_Wide": C17_Wide,
	"C17_Words": C17_Words,
	"C18_AbsentAt": C18_AbsentAt,
	"C18_AbsentKey": C18_AbsentKey,
	"C18_Collection": C18_Collection,
	"C18_Duplicates": C18_Duplicates,
	"C18_EqualIndexes": C18_EqualIndexes,
	"C18_EqualKeys": C18_EqualKeys,
	"C18_Gap": C18_Gap,
	"C18_Long": C18_Long,
	"C18_LongList": C18_LongList,
	"C18_LongText": C18_LongText,
	"C18_Own": C18_Own,
	"C18_Scalar": C18_Scalar,
	"C18_String": C18_String,
	"C18_Texts": C18_Texts,
	"C18_Words": C18_Words,
	"C19_BigText": C19_BigText,
	"C19_Collection": C19_Collection,
	"C19_Context": C19_Context,
	"C19_Decoded": C19_Decoded,
	"C19_Double": C19_Double,
	"C19_Key": C19_Key,
	"C19_Large": C19_Large,
	"C19_LongKey": C19_LongKey,
	"C19_LongRaw": C19_LongRaw,
	"C19_LongText": C19_LongText,
	"C19_LongUnknown": C19_LongUnknown,
	"C19_Nil": C19_Nil,
	"C19_Number": C19_Number,
	"C19_Positions": C19_Positions,
	"C19_Raw": C19_Raw,
	"C19_Rune": C19_Rune,
	"C19_Sizes": C19_Sizes,
	"C19_String": C19_String,
	"C19_Words": C19_Words,
	"C20_AnyText": C20_AnyText,
	"C20_Base64": C20_Base64,
	"C20_BigInt": C20_BigInt,
	"C20_BigIntWide": C20_BigIntWide,
	"C20_Bool": C20_Bool,
	"C20_Decimal": C20_Decimal,
	"C20_Edges": C20_Edges,
	"C20_Hex": C20_Hex,
	"C20_HexExp": C20_HexExp,
	"C20_HugeExp": C20_HugeExp,
	"C20_Long": C20_Long,
	"C20_LongEqual": C20_LongEqual,
	"C20_LongRaw": C20_LongRaw,
	"C20_NumberText": C20_NumberText,
	"C20_Raw": C20_Raw,
	"C20_Wide": C20_Wide,
	"C20_Words": C20_Words,
	"C21_AddBig": C21_AddBig,
	"C21_AddDecimal": C21_AddDecimal,
	"C21_AddDouble": C21_AddDouble,
	"C21_AddFar": C21_AddFar,
	"C21_AddLong": C21_AddLong,
	"C21_AddLongBig": C21_AddLongBig,
	"C21_BigAndLong": C21_BigAndLong,
	"C21_BigDouble": C21_BigDouble,
	"C21_BigInt": C21_BigInt,
	"C21_Decimal": C21_Decimal,
	"C21_DecimalWide": C21_DecimalWide,
	"C21_DoubleBig": C21_DoubleBig,
	"C21_DoubleDecimal": C21_DoubleDecimal,
	"C21_DoubleLong": C21_DoubleLong,
	"C21_Floor": C21_Floor,
	"C21_Long": C21_Long,
	"C21_LongEdges": C21_LongEdges,
	"C21_NoNumber": C21_NoNumber,
	"C21_Own": C21_Own,
	"C21_Same": C21_Same,
	"C21_Truncation": C21_Truncation,
	"C21_WideBig": C21_WideBig,
	"C21_WideDecimal": C21_WideDecimal,
	"C22_Consumer": C22_Consumer,
	"C22_Cut": C22_Cut,
	"C22_CutElements": C22_CutElements,
	"C22_Independent": C22_Independent,
	"C22_Large": C22_Large,
	"C22_Malformed": C22_Malformed,
	"C22_Many": C22_Many,
	"C22_Mixed": C22_Mixed,
	"C22_Pieces": C22_Pieces,
	"C22_Producer": C22_Producer,
	"C22_RoundTrip": C22_RoundTrip,
	"C22_Through": C22_Through,
	"C23_AnyBytes": C23_AnyBytes,
	"C23_ArrayTags": C23_ArrayTags,
	"C23_Arrays": C23_Arrays,
	"C23_Copy": C23_Copy,
	"C23_EmptyList": C23_EmptyList,
	"C23_Fields": C23_Fields,
	"C23_Filled": C23_Filled,
	"C23_Invalid": C23_Invalid,
	"C23_Kinds": C23_Kinds,
	"C23_Lengths": C23_Lengths,
	"C23_ManyElements": C23_ManyElements,
	"C23_NoTag": C23_NoTag,
	"C23_NodeBytes": C23_NodeBytes,
	"C23_Recursive": C23_Recursive,
	"C23_SameName": C23_SameName,
	"C23_Tags": C23_Tags,
	"C23_Truncated": C23_Truncated,
	"C23_UnknownTag": C23_UnknownTag,
	"C23_Value": C23_Value,
	"C23_WrongShape": C23_WrongShape,
	"C23_WrongType": C23_WrongType,
	"C24_AnyPlaintext": C24_AnyPlaintext,
	"C24_Extended": C24_Extended,
	"C24_Garbage": C24_Garbage,
	"C24_Keys": C24_Keys,
	"C24_Large": C24_Large,
	"C24_Mixed": C24_Mixed,
	"C24_NoSharing": C24_NoSharing,
	"C24_Nonce": C24_Nonce,
	"C24_NonceInPieces": C24_NonceInPieces,
	"C24_OneByte": C24_OneByte,
	"C24_OtherKey": C24_OtherKey,
	"C24_RandomFails": C24_RandomFails,
	"C24_RoundTrip": C24_RoundTrip,
	"C24_Sizes": C24_Sizes,
	"C24_Tampered": C24_Tampered,
	"C24_TamperedSizes": C24_TamperedSizes,
	"C24_Truncated": C24_Truncated,
	"C25_AnyBytes": C25_AnyBytes,
	"C25_Collections": C25_Collections,
	"C25_Decode": C25_Decode,
	"C25_Decoded": C25_Decoded,
	"C25_DeriveLists": C25_DeriveLists,
	"C25_DeriveMaps": C25_DeriveMaps,
	"C25_Doubles": C25_Doubles,
	"C25_Globals": C25_Globals,
	"C25_HandedOut": C25_HandedOut,
	"C25_Large": C25_Large,
	"C25_Nested": C25_Nested,
	"C25_Pairs": C25_Pairs,
	"C25_Parse": C25_Parse,
	"C25_Scalars": C25_Scalars,
	"C25_Streams": C25_Streams,
	"C25_Structs": C25_Structs,
	"C26_Any": C26_Any,
	"C26_DecimalKey": C26_DecimalKey,
	"C26_Elements": C26_Elements,
	"C26_Fields": C26_Fields,
	"C26_Header": C26_Header,
	"C26_Headers": C26_Headers,
	"C26_Indexes": C26_Indexes,
	"C26_Keys": C26_Keys,
	"C26_MapHeaders": C26_MapHeaders,
	"C26_Nesting": C26_Nesting,
	"C26_Ordinary": C26_Ordinary,
	"C26_Payload": C26_Payload,
	"C27_AnyExtHeader": C27_AnyExtHeader,
	"C27_AnyHeader": C27_AnyHeader,
	"C27_Copies": C27_Copies,
	"C27_Cut": C27_Cut,
	"C27_Formats": C27_Formats,
	"C27_Keeps": C27_Keeps,
	"C27_NegativeSizes": C27_NegativeSizes,
	"C27_Overflow": C27_Overflow,
	"C27_Own": C27_Own,
	"C27_Payload": C27_Payload,
	"C27_Raw": C27_Raw,
	"C27_Rejects": C27_Rejects,
	"C27_Sequence": C27_Sequence,
	"C27_Two": C27_Two,
	"C27_Words": C27_Words,
	"C27_Writer": C27_Writer,
	"C27_WriterSizes": C27_WriterSizes,
	"C28_Among": C28_Among,
	"C28_AnyOrder": C28_AnyOrder,
	"C28_AsValue": C28_AsValue,
	"C28_FarTags": C28_FarTags,
	"C28_FromList": C28_FromList,
	"C28_Kinds": C28_Kinds,
	"C28_Lengths": C28_Lengths,
	"C28_ManyFields": C28_ManyFields,
	"C28_Nested": C28_Nested,
	"C28_Repeated": C28_Repeated,
	"C28_RepeatedThroughValue": C28_RepeatedThroughValue,
	"C28_Sequence": C28_Sequence,
	"C28_Words": C28_Words,
	"C29_AnyBytes": C29_AnyBytes,
	"C29_Collections": C29_Collections,
	"C29_Decoded": C29_Decoded,
	"C29_Derived": C29_Derived,
	"C29_Empties": C29_Empties,
	"C29_Empty": C29_Empty,
	"C29_Format": C29_Format,
	"C29_Names": C29_Names,
	"C29_Scalars": C29_Scalars,
	"C29_Words": C29_Words,
}
