package h

// All maps harness names to functions, for native replay.
var All = map[string]func(){
	"AddContract":     AddContract,
	"AsciiSet":        AsciiSet,
	"AsciiSetLong":    AsciiSetLong,
	"AsciiSetString":  AsciiSetString,
	"Class":           Class,
	"ClassBytes":      ClassBytes,
	"ClassDash":       ClassDash,
	"ClassLarge":      ClassLarge,
	"ClassLong":       ClassLong,
	"ClassMixed":      ClassMixed,
	"ClassSame":       ClassSame,
	"ClassString":     ClassString,
	"CondsMany":       CondsMany,
	"ErrorsLong":      ErrorsLong,
	"Escape":          Escape,
	"EscapeBack":      EscapeBack,
	"EscapeLong":      EscapeLong,
	"Expand":          Expand,
	"ExpandDepth":     ExpandDepth,
	"ExpandLimits":    ExpandLimits,
	"ExpandLong":      ExpandLong,
	"ExpandRaw":       ExpandRaw,
	"GGlobErrors":     GGlobErrors,
	"GGlobLong":       GGlobLong,
	"GGlobMatch":      GGlobMatch,
	"GGlobNormal":     GGlobNormal,
	"GGlobParts":      GGlobParts,
	"GGlobReject":     GGlobReject,
	"GGlobSize":       GGlobSize,
	"GGlobTree":       GGlobTree,
	"GGlobTreeMany":   GGlobTreeMany,
	"GGlobTreeParts":  GGlobTreeParts,
	"GGlobTreeStores": GGlobTreeStores,
	"GGlobWide":       GGlobWide,
	"GlobBytes":       GlobBytes,
	"GlobErrors":      GlobErrors,
	"GlobLong":        GlobLong,
	"GlobMalformed":   GlobMalformed,
	"GlobMany":        GlobMany,
	"GlobManyVals":    GlobManyVals,
	"GlobMatch":       GlobMatch,
	"GlobNormal":      GlobNormal,
	"GlobRandom":      GlobRandom,
	"GlobRaw":         GlobRaw,
	"GlobSize":        GlobSize,
	"GlobSpelling":    GlobSpelling,
	"GlobTree":        GlobTree,
	"GlobTreeBytes":   GlobTreeBytes,
	"GlobTreeLong":    GlobTreeLong,
	"GlobTreeMany":    GlobTreeMany,
	"GlobTreeStores":  GlobTreeStores,
	"ItemEqual":       ItemEqual,
	"ItemFind":        ItemFind,
	"ItemList":        ItemList,
	"ItemLong":        ItemLong,
	"ItemSkip":        ItemSkip,
	"ItemsAppend":     ItemsAppend,
	"PathErrors":      PathErrors,
	"PathLong":        PathLong,
	"PathSplits":      PathSplits,
	"PathTagsBack":    PathTagsBack,
	"PathTagsLong":    PathTagsLong,
	"PathTagsRaw":     PathTagsRaw,
	"Prefix":          Prefix,
	"PrefixLong":      PrefixLong,
	"PrefixRaw":       PrefixRaw,
	"QueryErrors":     QueryErrors,
	"RandomMany":      RandomMany,
	"ReadGGlob":       ReadGGlob,
	"ReadGlob":        ReadGlob,
	"ReadLong":        ReadLong,
	"ReadParse":       ReadParse,
	"ReadTags":        ReadTags,
	"ReadTree":        ReadTree,
	"SkipLong":        SkipLong,
	"SkipRunes":       SkipRunes,
	"SkipRunesBytes":  SkipRunesBytes,
	"SpellMany":       SpellMany,
	"Stores":          Stores,
	"StoresLong":      StoresLong,
	"TagsLimit":       TagsLimit,
	"TagsLong":        TagsLong,
	"TagsMatch":       TagsMatch,
	"TagsNormal":      TagsNormal,
	"TagsParse":       TagsParse,
	"TagsQuote":       TagsQuote,
	"TagsRaw":         TagsRaw,
	"TagsRegexp":      TagsRegexp,
	"TagsTree":        TagsTree,
	"TagsTreeMany":    TagsTreeMany,
	"TagsTreeStores":  TagsTreeStores,
	"TagsWide":        TagsWide,
	"Unescape":        Unescape,
	"UnescapeLong":    UnescapeLong,
	"UnescapeRaw":     UnescapeRaw,
	"Wildcards":       Wildcards,
	"WildcardsMany":   WildcardsMany,
}
