INP = ['inputs']
T_GLOB = 'the tests run a few hundred hand-written pairs of a glob and a string; the meaning must hold for every glob and every string, and the errors sit in backtracking after a star, values that are prefixes of each other and mixed byte widths'

prop('C01', 'A glob matches exactly the strings it means',
 'A glob matches a string exactly when the whole string can be read as the glob: a literal symbol stands for itself, ? for exactly one symbol, * for any sequence of symbols (also none), [..] for one symbol of the listed symbols and ranges, {..} for any one of its values, which may be empty and may contain wildcards. This holds for every combination and order of these parts and for symbols of every UTF-8 width; in a string, a byte which is not UTF-8 is a symbol of its own.',
 ['inputs'], 'every well-formed glob and every string', T_GLOB,
 ['glob/glob.go', 'pkg/items/items.go', 'pkg/items/group.go', 'pkg/items/stringlist.go', 'pkg/items/runesranges.go', 'pkg/utils/runesranges.go'],
 [('Glob.Match: length bounds, prefix, suffix, items', 'glob/glob.go'), ('matchItems, matchStarItems: backtracking over items', 'pkg/items/items.go'), ('items Find and Match', 'pkg/items')],
 'globs: all 40 part templates (plus 15 multibyte, 27 + 11 whole-glob templates) with arbitrary ASCII letters, and all pairs and triples of parts with fixed letters; strings: every ASCII string up to 3 to 6 symbols, and mixed 1-4 byte symbols up to 3.',
 'longer strings and globs of more parts; symbols other than U+0400..U+043F, U+4E00.., U+1F600.., U+FFC0.., U+00C0.. blocks.',
 ['GlobMatch set=1,pieces=1,n=3 @2 # every part template, arbitrary letters',
  'GlobMatch set=0,pieces=1,n=4',
  'GlobMatch set=1,pieces=2,n=3,const=1 # all pairs of templates, arbitrary strings',
  'GlobMatch set=0,pieces=3,n=3,const=1 # all triples',
  'GlobMatch set=4,n=4,const=1 # stars and what must be retried after them',
  'GlobMatch set=6,n=6,const=1',
  'GlobMatch set=7,n=6,const=1',
  'GlobMatch set=8,n=5,const=1 # several wildcards in one value',
  'GlobMatch set=8,n=4,shapes=2,const=1',
  'GlobMatch set=5,pieces=1,n=3,shapes=3',
  'GlobMatch set=3,pieces=2,n=2,shapes=4,const=1', 'GlobMatch set=11,n=3,pieces=1,lower=1', 'GlobMatch set=12,pieces=1,n=10,min=1,const=1', 'GlobMatch set=12,pieces=1,n=5,min=3,shapes=2,const=1', 'GlobLong lower=1,hi=1 # long runs between wildcards', 'GlobLong lower=1,lo=2,hi=3,kinds=1,shapes=1', 'GlobMatch set=13,pieces=1,n=4,shapes=2,const=1', 'GlobMatch set=14,pieces=1,n=3,shapes=11', 'GlobMatch set=14,pieces=2,n=3,shapes=11,const=1', 'GlobMatch set=8,n=4,pieces=1,shapes=10,const=1', 'GlobMatch far=6,set=4,n=2,const=1,pieces=1 # a text of over 1000 symbols around', 'GlobMatch far=6,set=8,n=2,pieces=1,const=1', 'GlobMatch far=6,set=5,n=1,pieces=1,const=1', 'GlobMatch set=15,pieces=1,n=3,shapes=2', 'GlobMatch far=6,set=16,n=4,min=3,const=1,pieces=1', 'GlobMatch edge=0,set=17,n=2,shapes=3,pieces=1', 'GlobMatch edge=1,set=17,n=2,shapes=3,pieces=1', 'GlobMatch edge=2,set=18,n=2,shapes=3,pieces=1', 'GlobManyVals lower=1,vals=4,around=2 # lists of up to 130 values', 'GlobMany lower=1,lo=4,around=3 steps=40000000 # 300 parts', 'GlobMany lower=1,lo=1,hi=1 steps=40000000', 'GlobManyVals lower=1,vals=2,wild=1,around=1,shapes=1'],
 ['GlobMatch set=4,n=3 @3', 'GlobMatch set=8,n=4 @3', 'GlobMatch set=8,n=6,min=6,const=1 @2', 'GlobMatch set=6,n=4 @3', 'GlobMatch set=1,pieces=2,n=4,shapes=2,const=1 @2', 'GlobMatch set=0,pieces=4,n=4,const=1 @4', 'GlobMatch set=4,n=6,min=5,const=1 @3', 'GlobMatch set=0,pieces=2,n=3 @4', 'GlobMatch set=3,pieces=1,n=3,shapes=5 @2', 'GlobMatch set=11,n=5,pieces=1,lower=1', 'GlobMatch set=11,n=4,pieces=2,const=1', 'GlobMatch set=12,pieces=1,n=13,min=1', 'GlobLong lower=1,hi=3 @2', 'GlobLong lower=1,lo=4,hi=4,shapes=1 @2', 'GlobMatch set=1,pieces=2,n=3,shapes=11,const=1 @2', 'GlobMatch set=13,pieces=1,n=4,shapes=11', 'GlobMatch far=6,set=1,n=2,pieces=1', 'GlobMatch far=5,set=4,n=3,const=1,pieces=1', 'GlobMatch far=7,set=6,n=1,pieces=1,const=1', 'GlobMatch set=16,n=6,pieces=1', 'GlobMatch far=6,set=16,n=5,pieces=1,const=1,pads=1', 'GlobMatch set=15,pieces=1,n=4,shapes=3', 'GlobManyVals lower=1,vals=5,around=6 @2'])

prop('C02', 'Parsing and matching never crash or hang; malformed globs are rejected',
 'Parsing any text as a glob either returns an error or a glob, and matching any bytes (also bytes that are not UTF-8) against an accepted glob ends with an answer: nothing panics or runs forever. A glob with a bracket that is not closed or was never opened, and a dotted glob with an empty level, is rejected with an error and never accepted with another meaning.',
 ['inputs'], 'every text as a glob, every byte sequence as a string',
 'the tests have two dozen malformed globs and only valid UTF-8; panics and endless loops hide in rare bytes and unbalanced brackets',
 ['glob/glob.go', 'gglob/gglob.go', 'pkg/items/wildcard.go', 'pkg/items/group.go', 'pkg/items/items.go', 'pkg/items/tree.go', 'pkg/utils/runesranges.go', 'pkg/utils/string.go'],
 [('glob.Parse', 'glob/glob.go'), ('gglob.Parse', 'gglob/gglob.go'), ('NextWildcardItem', 'pkg/items/wildcard.go'), ('NewGroup, NewItemList', 'pkg/items/group.go')],
 'every glob text of up to 4 (rejection: 5) symbols over the parser alphabet and some multibyte and invalid bytes, matched with every byte string up to 2; 40 templates with every byte string up to 2; dotted texts up to 4; trees of 2 globs with every byte string up to 2.',
 'longer texts; texts with two different unbalanced kinds of brackets nested in each other ({[}]}).',
 ['GlobMalformed gn=5', 'GlobRaw gn=3,n=2', 'GlobBytes set=1,pieces=1,n=2', 'GlobBytes set=4,n=4,const=1', 'GGlobReject n=4', 'ClassMixed shapes=2', 'GlobTreeBytes set=4,order=1', 'GlobTreeBytes set=1,order=1,const=1,n=3', 'GlobMany lower=1,lo=2,hi=4,bad=1 steps=40000000'],
 ['GlobRaw gn=4,n=2 @2', 'GlobMalformed gn=6 @3', 'GGlobReject n=6 @2', 'GlobBytes set=1,pieces=2,n=3,const=1 @2', 'GlobBytes set=3,pieces=2,n=3,const=1 @2', 'GlobTreeBytes set=3,order=1,n=3,const=1 @2'])

prop('C03', 'The normalized glob means the same and is stable',
 'The normalized form of an accepted glob is accepted again and matches exactly the same strings as the glob it was made of. If no wildcards are used inside of braces, normalizing the normalized form changes nothing.',
 ['inputs'], 'every accepted glob and every string',
 'the tests compare the normal form of some globs with an expected text, they do not match anything against the reparsed form',
 ['glob/glob.go', 'gglob/gglob.go', 'pkg/items/wildcard.go', 'pkg/items/stringlist.go', 'pkg/utils/runesranges.go'],
 [('Glob.Node from the items', 'glob/glob.go'), ('WriteString of the items', 'pkg/items'), ('list sorting and deduplication', 'pkg/items/stringlist.go')],
 '40 part templates with arbitrary letters and strings up to 3; all pairs with fixed letters; dotted templates with paths up to 3.',
 'globs of more parts; idempotence of globs with wildcards inside of braces (an empty-list value or a list of one value is rewritten twice); a dotted level of empty brackets only.',
 ['GlobNormal set=1,pieces=1,n=3 @2', 'GlobNormal set=1,pieces=2,n=3,const=1', 'GlobNormal set=3,pieces=1,n=2,shapes=3', 'GlobNormal set=4,n=4,const=1', 'GlobNormal set=8,n=4,shapes=2,const=1', 'GGlobNormal set=0,n=3', 'GGlobNormal set=4,n=3', 'GlobNormal set=11,n=2,pieces=1,lower=1', 'GlobNormal set=12,pieces=1,n=12,min=1,const=1', 'GlobLong lower=1,lo=1,hi=3,normal=1,kinds=1,shapes=1', 'GlobNormal set=14,pieces=1,n=2,shapes=11', 'GlobNormal set=13,pieces=1,n=4,shapes=2,const=1', 'GlobNormal set=15,pieces=1,n=2,shapes=3', 'GlobNormal edge=0,set=17,n=2,shapes=3,pieces=1', 'GlobNormal edge=1,set=17,n=2,shapes=3,pieces=1', 'GlobNormal edge=2,set=18,n=2,shapes=3,pieces=1', 'GlobNormal edge=2,set=17,n=1,shapes=3,pieces=1', 'GlobMany lower=1,lo=4,what=1,around=3 steps=40000000', 'GlobMany lower=1,lo=1,hi=1,what=1 steps=40000000'],
 ['GlobNormal set=0,pieces=2,n=3 @3', 'GlobNormal set=4,n=3 @2', 'GlobNormal set=0,pieces=3,n=4,const=1 @2', 'GGlobNormal set=0,n=5 @2', 'GGlobNormal set=2,n=4,shapes=3', 'GlobNormal set=11,n=4,pieces=1,lower=1', 'GlobNormal set=12,pieces=1,n=13,min=1', 'GlobLong lower=1,hi=3,normal=1 @2', 'GlobNormal set=14,pieces=2,n=3,shapes=11,const=1 @2', 'GlobNormal set=15,pieces=2,n=3,shapes=3,const=1'])

prop('C04', 'A glob tree reports exactly the globs that match on their own',
 'Matching a string against a tree of globs reports a glob if and only if this glob alone matches the string, each report carrying the normalized glob and the index it was added with, and returns the number of reports. Which other globs the tree holds, how they share their beginnings, and the order they were added in change nothing.',
 ['inputs', 'histories'], 'every set of globs, order of addition and string',
 'the tests hold a handful of hand-picked trees; the tree code is a second matcher (shared nodes, reverse nodes for suffixes) whose errors need specific pairs of globs and a specific string',
 ['glob/tree.go', 'pkg/items/tree.go', 'pkg/items/items.go'],
 [('addGlob: suffix, prefix and items nodes', 'glob/tree.go'), ('TreeItem.Match, match, matchStar', 'pkg/items/tree.go'), ('LocateChildTreeItem', 'pkg/items/tree.go')],
 'trees of 2 and 3 globs of 11 families of 7-13 templates over shared arbitrary letters (which may be equal), strings up to 2-3 symbols; with fixed letters strings up to 5 and 3 globs; trees of all globs of a family, or of all families, in 4 orders, strings up to 4 (2); both Add and AddGlob.',
 'larger trees; a glob may be reported more than once (existing tests pin it), so the property is about the set of reports.',
 ['GlobTree set=0,globs=2,n=2', 'GlobTree set=1,globs=2,n=2', 'GlobTree set=2,globs=2,n=2', 'GlobTree set=3,globs=2,n=4,const=1', 'GlobTree set=4,globs=2,n=2,shapes=3', 'GlobTree set=5,globs=2,n=2', 'GlobTree set=7,globs=2,n=2,shapes=2', 'GlobTree set=8,globs=3,n=3,const=1,order=1',
  'GlobTree set=9,globs=2,n=5,const=1', 'GlobTree set=10,globs=2,n=4,const=1', 'GlobTree set=9,globs=3,n=4,const=1,order=1', 'GlobTree set=10,globs=2,n=3,shapes=2,const=1,order=1', 'GlobTree set=11,globs=3,n=4,const=1,order=1',
  'GlobTree set=1,globs=3,n=4,order=1,const=1', 'GlobTree set=0,globs=3,n=4,const=1,addglob=1', 'GlobTree set=5,globs=3,n=3,order=1,const=1', 'GlobTree anyset=1,all=1,const=1,n=4', 'GlobTree set=0,all=1,n=2', 'GlobTree set=1,all=1,n=2', 'GlobTree set=2,all=1,n=2', 'GlobTree anyset=2,all=1,const=1,n=2', 'GlobTree set=6,globs=2,n=5,const=1', 'GlobTree set=6,globs=3,n=3,const=1,order=1', 'GlobTreeLong lower=1,hi=2,lo=2,all=1,kinds=1,shapes=1,strs=9', 'GlobTreeLong lower=1,lo=3,hi=3,order=1,kinds=1,shapes=1,strs=9', 'GlobTreeMany globs=40,lower=1', 'GlobTree set=4,globs=2,n=3,shapes=11,const=1', 'GlobTree set=10,globs=2,n=3,shapes=11,const=1,order=1', 'GlobTree set=9,globs=2,n=3,shapes=11,const=1,order=1', 'GlobTree set=12,globs=2,n=3,const=1', 'GlobTree far=6,set=1,globs=2,n=1,const=1,order=1,pads=2', 'GlobManyVals lower=1,vals=3,tree=1,around=2', 'GlobMany lower=1,lo=4,what=3,around=2 steps=40000000', 'GlobManyVals lower=1,vals=2,wild=1,around=1,shapes=1,tree=1'],
 ['GlobTree set=3,globs=2,n=2,order=1 @2', 'GlobTree set=9,globs=2,n=3 @3', 'GlobTree set=10,globs=2,n=3 @3', 'GlobTree set=10,globs=3,n=5,const=1 @2', 'GlobTree set=11,globs=2,n=3 @2', 'GlobTree set=1,globs=2,n=3 @2', 'GlobTree set=0,globs=3,n=2,order=1', 'GlobTree set=3,globs=3,n=4,order=1,const=1 @2', 'GlobTree set=1,globs=3,n=5,const=1 @4', 'GlobTree set=2,globs=3,n=3,order=1 @3', 'GlobTree set=4,globs=3,n=3,shapes=2,order=1,const=1 @2', 'GlobTree anyset=2,all=1,const=1,n=3', 'GlobTree anyset=1,all=1,const=1,n=6', 'GlobTree set=3,all=1,n=2 @2', 'GlobTree set=1,all=1,n=3 @2', 'GlobTree set=6,globs=2,n=2', 'GlobTree set=6,all=1,n=2', 'GlobTreeLong lower=1,hi=3,shapes=1 @3', 'GlobTreeMany globs=130,lower=1 @2', 'GlobTree set=1,globs=3,n=3,shapes=11,const=1,order=1 @2', 'GlobTree set=12,globs=2,n=2 @2', 'GlobTree set=12,globs=3,n=4,const=1,order=1', 'GlobTree far=6,set=3,n=2,const=1,globs=2', 'GlobManyVals lower=1,vals=5,tree=1,around=4 @2'])

prop('C05', 'Adding to a tree keeps its names and indexes consistent',
 'Adding a new valid expression with a free non-negative index to a tree (of globs, dotted globs or seriesByTag queries) returns its normalized form and this index, and the tree knows it by its text, by its normalized form and by the index. A negative index, an expression that is already known (by its text or its normalized form), an index in use, and a malformed expression are each rejected with the corresponding error (with the index of the known expression, or the expression that owns the index), and a rejected or empty addition leaves the tree and its later answers as they were.',
 ['inputs', 'histories'], 'every sequence of additions, every index',
 'the tests add each list of expressions once with increasing indexes; rejected additions and their effect on later ones are sampled by a few cases',
 ['glob/tree.go', 'gglob/gtree.go', 'gtags/tree.go', 'gtags/items.go'],
 [('GlobTree.Add, AddGlob', 'glob/tree.go'), ('GGlobTree.Add, AddGlob', 'gglob/gtree.go'), ('GTagsTree.Add, AddTerms', 'gtags/tree.go'), ('TaggedItem.Parse', 'gtags/items.go')],
 'all sequences of 2 additions (thorough: 3) of 9-11 text templates per kind of tree over shared arbitrary letters, with every 64-bit index, by text or parsed; the tree is compared after each addition, its answers at the end.',
 'longer sequences; when several causes apply any of their errors is accepted.',
 ['AddContract tree=0,ops=2 @2', 'AddContract tree=1,ops=2', 'AddContract tree=2,ops=2', 'AddContract tree=0,before=300,ops=1 steps=40000000 # into a tree of 300', 'AddContract tree=1,before=300,ops=1 steps=40000000 # into a tree of 300', 'AddContract tree=2,before=300,ops=1 steps=40000000 # into a tree of 300'],
 ['AddContract tree=0,ops=3,const=1 @2', 'AddContract tree=1,ops=3,const=1', 'AddContract tree=2,ops=3,const=1 @2', 'AddContract tree=0,ops=3,idx=2 @4'])

prop('C06', 'A dotted glob matches level by level',
 'A dotted glob matches a path exactly when both have the same number of levels and every level of the path matches the glob of this level; a wildcard never crosses a dot, and one trailing dot of the glob or the path means nothing. A path with an empty level matches nothing.',
 ['inputs'], 'every dotted glob and every path',
 'the tests have some dozens of pairs; crossing a dot, a wrong count of levels and length shortcuts show only for particular shapes of paths',
 ['gglob/gglob.go', 'gglob/utils.go', 'glob/glob.go'],
 [('GGlob.Match', 'gglob/gglob.go'), ('gglob.Parse', 'gglob/gglob.go'), ('PathLevel', 'gglob/utils.go')],
 '33 dotted templates of 1-4 levels with arbitrary letters; every path up to 4 (5, 7) symbols, each a dot or another symbol, also multibyte.',
 'longer paths, more levels; matching within one level is C01.',
 ['GGlobMatch set=0,n=4', 'GGlobMatch set=2,n=3,shapes=3', 'GGlobMatch set=3,n=5', 'GGlobMatch set=3,n=7,const=1', 'GGlobLong lower=1,hi=4', 'GGlobWide lower=1,hi=7', 'GGlobLong lower=1,lo=8,hi=8,holes=2', 'GlobMany lower=1,lo=4,what=4,around=1 steps=40000000'],
 ['GGlobMatch set=0,n=6 @2', 'GGlobMatch set=3,n=9,const=1 @2', 'GGlobMatch set=2,n=5,shapes=3', 'GGlobMatch set=1,n=6,const=1', 'GGlobMatch set=3,n=7 @3', 'GGlobLong lower=1,hi=8,shapes=3 @2', 'GGlobWide lower=1,hi=8,kind=2,shapes=4'])

prop('C07', 'All ways to split a path agree, and lead to the same match',
 'The functions that split a path to levels agree with each other on the levels, their count, and whether a level is empty, whatever a reused buffer held before. Matching a path without empty levels and matching its levels, with or without the length given, answer the same.',
 ['inputs'], 'every path, every buffer, every dotted glob',
 'the tests split a few paths; a reused buffer, a trailing dot and empty levels at the borders are sampled only',
 ['gglob/utils.go', 'gglob/gglob.go'],
 [('PathSplit, PathSplitB, PathLevel, HasEmptyParts', 'gglob/utils.go'), ('GGlob.MatchByParts', 'gglob/gglob.go')],
 'every path up to 7 symbols (splitting), dotted templates with paths up to 4 (matching); reused buffers of 0-2 old levels; the length is 0 or the length of the path without a trailing dot.',
 'matching by levels where a level is empty; other values of the length argument.',
 ['GGlobParts set=0,n=4', 'GGlobParts set=3,n=7,const=1', 'PathSplits n=7,shapes=2', 'GGlobLong lower=1,hi=4,parts=1', 'PathLong hi=6', 'PathLong lo=8,hi=8', 'GGlobLong lower=1,lo=8,hi=8,holes=2,parts=1'],
 ['PathSplits n=9,shapes=2', 'GGlobParts set=0,n=6 @2', 'GGlobParts set=3,n=8,const=1', 'GGlobParts set=3,n=6 @2', 'GGlobParts set=2,n=4,shapes=3', 'GGlobLong lower=1,hi=8,shapes=3,parts=1 @2', 'PathLong hi=8,shapes=2'])

prop('C08', 'A tree of dotted globs reports exactly those that match on their own',
 'Matching a path, or its levels, against a tree of dotted globs reports a glob if and only if this glob alone matches the path, once each, with the normalized glob and the index it was added with, and returns the number of reports. Which other globs share its first levels, and the order of addition, change nothing.',
 ['inputs', 'histories'], 'every set of dotted globs, order of addition and path',
 'the tests hold hand-picked trees; errors need globs that share levels and a path which ends early or goes on',
 ['gglob/gtree.go', 'gglob/utils.go'],
 [('addGGlob', 'gglob/gtree.go'), ('GTreeItem.MatchItems, MatchItemsByParts', 'gglob/gtree.go'), ('LocateChildGTreeItem', 'gglob/gtree.go')],
 'trees of 2 dotted globs of 28 templates over shared arbitrary letters, 3 globs with fixed letters; every path up to 4-5 symbols; Add and AddGlob; by path and by levels.',
 'larger trees and deeper levels.',
 ['GGlobTree set=1,n=4,order=1', 'GGlobTree set=4,n=3,order=1', 'GGlobTree set=1,n=5,const=1', 'GGlobTree set=4,n=3,const=1,globs=3', 'GGlobTreeParts set=1,n=4,order=1,addglob=1', 'GGlobTreeParts set=4,n=3,const=1', 'GGlobTree anyset=2,all=1,const=1,n=4', 'GGlobTree set=1,all=1,n=3', 'GGlobTreeParts anyset=1,all=1,const=1,n=4', 'GGlobLong lower=1,hi=4,tree=1', 'GGlobTreeMany globs=40,lower=1', 'GGlobWide lower=1,lo=3,hi=7,tree=1,globs=2', 'GGlobLong lower=1,lo=8,hi=8,holes=2,tree=1', 'GlobMany lower=1,lo=4,what=4,around=2 steps=40000000'],
 ['GGlobTree set=1,n=4', 'GGlobTree set=4,n=3', 'GGlobTree set=1,n=5,globs=3,const=1 @3', 'GGlobTree set=4,n=3,globs=3,order=1 @4', 'GGlobTreeParts set=1,n=6,order=1,globs=3,const=1 @2', 'GGlobTree anyset=2,all=1,const=1,n=7', 'GGlobTree set=4,all=1,n=4', 'GGlobTree set=1,all=1,n=5 @2', 'GGlobTreeParts set=4,all=1,n=4', 'GGlobLong lower=1,hi=8,tree=1,shapes=2 @2', 'GGlobTreeMany globs=130,lower=1 @2', 'GGlobWide lower=1,lo=0,hi=3,tree=1,globs=3', 'GGlobWide lower=1,kind=2,lo=3,hi=8,tree=1,globs=2,shapes=4'])

prop('C09', 'seriesByTag queries are parsed to their conditions, in one normal form',
 'A well-formed seriesByTag query is parsed to exactly the conditions written in it (key, operation, value; name stands for __name__), whichever quotes, blanks and separators are used, ordered with __name__ first and then by key; other text is rejected with an error. The normal form is parsed to the same conditions again, and queries that differ only in the order of conditions or in decoration have the same normal form.',
 ['inputs'], 'every query text',
 'the tests list some dozens of queries; quotes, operators inside of values and orders of conditions multiply to far more',
 ['gtags/tagged_term.go'],
 [('ParseSeriesByTag, ParseTaggedConditions', 'gtags/tagged_term.go'), ('TaggedTermList.String', 'gtags/tagged_term.go')],
 '1-2 conditions of 17 (12) templates over shared arbitrary letters, decorations of blanks, quotes and separators; values of up to 2 arbitrary printable symbols; raw texts up to 5 of 13 parser symbols.',
 'values with blanks at the ends or with both kinds of quotes; 128 conditions and more.',
 ['TagsParse cset=0,conds=1', 'TagsParse cset=7,conds=2', 'TagsParse cset=1,conds=2,deco=0', 'TagsNormal cset=0,conds=2,deco=0', 'TagsNormal cset=7,conds=3', 'TagsQuote n=2', 'TagsRaw n=4', 'TagsRegexp lower=1,n=1', 'TagsLimit x=1', 'QueryErrors n=6', 'TagsLong lower=1,hi=3,shapes=1,what=0', 'CondsMany lower=1 steps=40000000'],
 ['TagsParse cset=4,conds=2,deco=0 @2', 'TagsParse cset=0,conds=2,deco=0 @2', 'TagsNormal cset=4,conds=2 @2', 'TagsNormal cset=1,conds=3 @3', 'TagsQuote n=4 @2', 'TagsRaw n=6 @2', 'TagsLong lower=1,hi=5,what=0 @2'])

prop('C10', 'Tags match a query exactly when all conditions hold',
 'A set of tags matches a seriesByTag query exactly when every condition holds: = and =~ need the key to exist and its value to match the glob or the regular expression, != and !=~ hold when the key does not exist or its value does not match. Matching by the ordered list of tags and by the map of tags answer the same.',
 ['inputs'], 'every query and every set of tags',
 'the tests have some dozens of pairs; conditions between, before and after the keys of the tags and several conditions of one key are sampled only',
 ['gtags/tagged_term.go'],
 [('TaggedTerm.Match', 'gtags/tagged_term.go'), ('TaggedTermList.MatchByTags, MatchByTagsMap', 'gtags/tagged_term.go')],
 '1-2 conditions of 17 templates over arbitrary keys and values, up to 2 tags (and a name) with arbitrary ordered keys and values up to 1-2 symbols; 10 tags with fixed keys; 7 regular expressions, and 28 others with values up to 4 symbols.',
 'tags that are not ordered or not unique; other regular expressions (package regexp is encoded from its source).',
 ['TagsMatch cset=0,conds=1,val=2', 'TagsMatch cset=1,conds=2', 'TagsMatch cset=2,conds=1,val=2,tags=1', 'TagsMatch cset=7,conds=2,min=2,tags=9,mintags=7,fixkeys=1,fixvals=1,noname=1', 'TagsMatch cset=3,conds=3,tags=2,const=1', 'TagsMatch cset=10,conds=2,tags=1', 'TagsLong lower=1,hi=3,kinds=1,shapes=1,what=1', 'TagsRegexp lower=1,n=4 # 28 regular expressions', 'TagsRegexp lower=1,n=3,shapes=3', 'CondsMany lower=1,hi=0,what=1 steps=40000000', 'CondsMany lower=1,lo=4,hi=4,what=1,ops=1,orders=1 steps=40000000 # 128 conditions'],
 ['TagsMatch cset=1,conds=3,tags=2 @3', 'TagsMatch cset=0,conds=2,tags=2 @3', 'TagsMatch cset=6,conds=3,tags=1,val=2 @2', 'TagsMatch cset=2,conds=2,val=2,tags=1 @2', 'TagsLong lower=1,hi=2,conds=2,what=1 @3', 'TagsLong lower=1,hi=4,what=1 @2', 'TagsRegexp lower=1,n=6,shapes=3 @2'])

prop('C11', 'A tree of seriesByTag queries reports exactly those that match on their own',
 'Matching tags, as an ordered list or as a map, against a tree of seriesByTag queries reports a query if and only if this query alone matches the tags, once each, with its normal form and the index it was added with, and returns the number of reports. Queries with shared conditions, with negative conditions only, or without conditions are no exception, and the order of addition changes nothing.',
 ['inputs', 'histories'], 'every set of queries, order of addition and set of tags',
 'the tests hold hand-picked trees; the tree is a second matcher, which shares the first conditions of queries and reads keys and tags in step, so an error needs a specific pair of queries and a specific set of tags',
 ['gtags/tree.go', 'gtags/items.go'],
 [('TaggedItem.Parse', 'gtags/items.go'), ('TaggedItem.MatchByTags, MatchByTagsMap', 'gtags/items.go'), ('GTagsTree.MatchByTags', 'gtags/tree.go')],
 'trees of 2 queries of 0-2 conditions of 4-12 templates over shared arbitrary keys and values, up to 1-2 tags and a name; trees of 3 queries with fixed letters; by list and by map; Add and AddTerms.',
 'larger trees; tags that are not ordered or not unique.',
 ['TagsTree cset=3,conds=1,queries=2', 'TagsTree cset=6,conds=1,queries=2,tags=1,val=2', 'TagsTree cset=2,conds=1,queries=2,tags=1,val=1', 'TagsTree cset=7,conds=2,queries=2,tags=1,map=1', 'TagsTree cset=7,conds=2,queries=2,tags=1', 'TagsTree cset=9,conds=1,min=1,queries=3,tags=1,const=1', 'TagsTree cset=4,conds=1,queries=2,tags=1,addterms=1,const=1', 'TagsTree cset=10,conds=1,queries=2,tags=1', 'TagsTree cset=8,conds=1,min=1,queries=2,tags=12,mintags=8,fixkeys=1,fixvals=1,noname=1', 'TagsTree cset=1,all=1,const=1,tags=2', 'TagsTree cset=4,all=1,const=1,tags=2,map=1', 'TagsTree cset=9,all=1,const=1,tags=2', 'TagsWide keys=5', 'TagsWide keys=5,fixtags=1,tags=9', 'TagsWide keys=8,tags=2', 'TagsLong lower=1,hi=3,kinds=1,shapes=1,what=2', 'TagsTreeMany queries=33', 'TagsRegexp lower=1,n=3', 'CondsMany lower=1,hi=0,what=2 steps=40000000', 'CondsMany lower=1,lo=4,hi=4,what=2,ops=1,orders=1 steps=40000000 # 128 conditions'],
 ['TagsTree cset=4,conds=1,queries=2,tags=1,addterms=1 @2', 'TagsTree cset=3,conds=2,queries=2,tags=2 @4', 'TagsTree cset=3,conds=2,queries=2,tags=2,map=1 @3', 'TagsTree cset=9,conds=1,min=1,queries=3,tags=1 @2', 'TagsTree cset=8,conds=2,queries=2,tags=9,mintags=7,fixkeys=1,fixvals=1,noname=1 @2', 'TagsTree cset=1,conds=2,queries=2,tags=1 @3', 'TagsTree cset=0,all=1,const=1,tags=2,val=2', 'TagsTree cset=9,all=1,const=1,tags=3,more=5', 'TagsWide keys=10,tags=3', 'TagsWide keys=4,symkeys=1,tags=1', 'TagsWide keys=5,tags=4', 'TagsLong lower=1,hi=2,conds=2,what=2 @3', 'TagsTreeMany queries=130 @2'])

prop('C12', 'Tagged paths are split to the tags they were made of',
 'A tagged path, made of an escaped name and escaped keys and values in either of the two formats, is split to exactly this name (as __name__) and these tags. The list, the map and the prepared map agree on every path, also on which paths are rejected, and nothing of the old content of a prepared map is left.',
 ['inputs'], 'every name, key, value and path, both formats',
 'the tests have a few paths per format; delimiters inside of escaped names, empty values and broken paths are sampled only',
 ['gtags/tagged_term.go', 'pkg/escape/unescape.go'],
 [('PathTags, PathTagsMap, PathTagsMapB', 'gtags/tagged_term.go'), ('GraphitePathTags, GraphitePathTagsMap, GraphitePathTagsMapB', 'gtags/tagged_term.go'), ('NextTag, GraphiteNextTag', 'gtags/tagged_term.go')],
 'names, keys and values of up to 1 arbitrary byte and 1 tag, or of one of 4 delimiters and letters and 2 tags (thorough: 2 and 3 tags); raw paths up to 5 of 8 symbols, up to 6 of 6.',
 'longer names; the content of the error.',
 ['PathTagsBack n=1,tags=1', 'PathTagsRaw n=5', 'PathTagsBack n=1,tags=2,few=1', 'PathErrors n=6', 'PathTagsLong counts=6', 'PathTagsBack n=1,tags=1,oldkey=2,few=1', 'PathTagsRaw n=4,oldkey=1'],
 ['PathTagsBack n=1,tags=2 @4', 'PathTagsRaw n=7 @2', 'PathTagsBack n=2,tags=1 @3', 'PathTagsBack n=1,tags=3,few=1', 'PathTagsLong x=1', 'PathTagsBack n=1,tags=1,oldkey=2', 'PathTagsRaw n=4,oldkey=2'])

prop('C13', 'Escaping leaves only allowed bytes and is undone by unescaping',
 'Escaping a string for a query or for a path leaves letters, digits and the allowed marks as they are, turns a blank of a query to + and every other byte to % and two hex digits, and appends the same to a buffer after what it holds. Unescaping an escaped query gives the string back; so it does for a path without +.',
 ['inputs'], 'every byte string',
 'the tests escape some URLs; each of 256 bytes at each place and strings around the size of the internal buffer are not covered',
 ['pkg/escape/escape.go', 'pkg/escape/url.go', 'pkg/escape/unescape.go'],
 [('Query, Path, QueryTo, PathTo', 'pkg/escape/escape.go'), ('escape, escapeTo, shouldEscape', 'pkg/escape/url.go'), ('Unescape', 'pkg/escape/unescape.go')],
 'every byte string up to 2 bytes (thorough: 3), also after 57-59 plain bytes (the internal buffer is 64 bytes).',
 'longer strings of bytes to escape.',
 ['Escape n=2', 'Escape n=2,pad=57', 'EscapeBack n=2', 'Escape n=1,pad=62', 'EscapeLong hi=8,kinds=1'],
 ['Escape n=3 @2', 'EscapeBack n=3 @2', 'Escape n=3,pad=56 @2', 'Escape n=2,pad=60', 'EscapeLong hi=8'])

prop('C14', 'Unescaping decodes exactly the escapes and changes nothing else',
 'Unescaping replaces every %XX by its byte and every + by a blank, keeps all other bytes, and returns a text without escapes unchanged; all variants of unescaping, also into a reused buffer, give the same result. It ends on any bytes and its result is never longer than the text.',
 ['inputs'], 'every byte string',
 'the tests unescape some names; each hex digit pair, escapes at the end and broken escapes are not covered',
 ['pkg/escape/unescape.go'],
 [('Unescape, UnescapeTo, UnescapeNameTo', 'pkg/escape/unescape.go'), ('ishex, unhex', 'pkg/escape/unescape.go')],
 'up to 3 elements (a plain byte, + or %XX with every pair of hex digits); arbitrary byte strings up to 6 (thorough: 8), with broken escapes.',
 'longer texts.',
 ['Unescape n=2', 'UnescapeRaw n=6', 'UnescapeLong hi=8'],
 ['Unescape n=3 @2', 'UnescapeRaw n=8 @2', 'UnescapeLong hi=8'])

prop('C15', 'Expansion lists exactly the strings a glob means',
 'Expanding a glob of lists and classes without limits gives every string it means, each combination of values in order: the values of a list as they are written, the symbols of a class in their order and each one once. What can not be expanded (a wildcard and all after it, a list with wildcards, a class of wildcards or brackets, a broken bracket) is kept as it was written; expanding again, also after a try, gives the same, and a try is the first string.',
 ['inputs'], 'every glob',
 'the tests expand some dozens of globs; combinations of lists, classes, ranges, empty and repeated values with plain text are sampled only',
 ['expand/expand.go', 'expand/expression.go', 'expand/runes.go'],
 [('Expand, ExpandTry', 'expand/expand.go'), ('ParseExpr, Expressions.Expand', 'expand/expand.go'), ('Expression.appendNext, runes.next', 'expand/expression.go')],
 'sequences of 1-2 of 12 part templates and 34 whole templates with arbitrary letters, class letters of 4 neighbours; raw texts up to 5 of 13 symbols.',
 'larger lists and classes; mixed-width and reversed ranges.',
 ['Expand eset=0,pieces=2', 'Expand eset=1', 'Expand eset=2', 'Expand eset=3', 'ExpandRaw gn=5', 'ExpandLong lower=1', 'Expand edge=0,eset=5', 'Expand edge=1,eset=5', 'Expand edge=2,eset=5', 'Expand edge=2,eset=6', 'Expand eset=7', 'Expand eset=8', 'Expand eset=9'],
 ['Expand eset=0,pieces=3 @2', 'Expand eset=1,pieces=2 @4', 'ExpandRaw gn=6 @2', 'ExpandLong lower=1'])

prop('C16', 'Limits of expansion restrict the count, never the meaning',
 'Expansion with a limit gives at least one and never more strings than the limit, and the same as without a limit if the limit allows for all; disabled expansion gives one. The globs it gives together always match exactly the strings the glob means, and a depth limit expands the levels before the limit and keeps the other levels as they were written.',
 ['inputs'], 'every glob, limit and depth',
 'the tests pair a few globs with a few limits; the interplay of the limit, the depth, kept brackets and partly expanded lists is not covered',
 ['expand/expand.go', 'expand/expression.go', 'expand/runes.go'],
 [('Expressions.Expand: max, depth', 'expand/expand.go'), ('Expand, ExpandTry', 'expand/expand.go')],
 '14 templates with arbitrary letters, limits -1..5, depths 0..2, and strings up to 2-3 symbols to compare the meaning; 9 templates for the depth.',
 'larger limits and expressions.',
 ['ExpandLimits eset=4,n=2,max=4,depth=2,const=1', 'ExpandLimits eset=3,n=5,min=5,max=6,depth=3,const=1', 'ExpandLimits eset=4,n=2,max=3,depth=1 @2', 'ExpandDepth eset=3', 'ExpandDepth eset=1,depth=2', 'ExpandLong lower=1,limits=1', 'ExpandLimits eset=10,n=3,min=1,max=3,depth=1,const=1 # ranges over brackets and wildcards', 'ExpandLimits edge=2,eset=6,n=1,max=2,depth=1,shapes=3', 'ExpandLimits edge=0,eset=5,n=1,max=2,depth=1,shapes=3'],
 ['ExpandLimits eset=4,n=2,max=4,depth=2 @3', 'ExpandLimits eset=1,n=3,max=6,depth=2,const=1 @2', 'ExpandDepth eset=0,depth=2', 'ExpandLong lower=1,limits=1'])

prop('C17', 'A class contains exactly its symbols, wherever it is searched',
 'A class of symbols and ranges contains exactly the symbols listed and no other symbol or invalid byte; a - which is not between two symbols adds nothing. Searching a string for it finds the first place of a member, testing the start or the end of a string tells if a member stands there, both with its symbol and width; adding symbols, merging, and the string form keep the same members, in one form for the same class.',
 ['inputs'], 'every class and every string',
 'the tests have some classes; borders of ranges, the 32-bit words of the ASCII set and mixed widths are sampled only',
 ['pkg/utils/runesranges.go', 'pkg/utils/asciiset.go', 'pkg/items/runesranges.go'],
 [('RunesRangeExpand, RunesRangeMerge', 'pkg/utils/runesranges.go'), ('Contains, Index, IndexByte, StartsWith, EndsWith', 'pkg/utils/runesranges.go')],
 'class templates of up to 4 symbols and ranges with arbitrary ends; strings up to 2 symbols of 1-4 bytes, byte strings up to 3.',
 'larger classes.',
 ['Class kset=0,n=1', 'Class kset=1,n=2,shapes=3', 'Class kset=2,n=1,shapes=4', 'Class kset=3,n=1,shapes=2', 'ClassBytes kset=1,n=3,only=1', 'ClassBytes kset=0,n=2,only=2', 'ClassString kset=1,shapes=4', 'ClassString kset=3,shapes=2', 'ClassString kset=0,only=3', 'ClassMixed shapes=6', 'ClassLarge n=0', 'Class kset=5,n=2,shapes=5', 'ClassBytes kset=5,n=3', 'ClassString kset=5,shapes=5', 'ClassLong kset=0,hi=3,const=1', 'ClassLong kset=1,hi=3,const=1', 'Class kset=1,n=2,shapes=11', 'ClassDash n=4', 'ClassSame', 'Class edge=0,kset=6,n=1,shapes=3 # neighbours over a change of the encoded length', 'Class edge=1,kset=6,n=1,shapes=3', 'Class edge=2,kset=6,n=1,shapes=3', 'Class edge=2,kset=7,n=2,shapes=3', 'ClassString edge=0,kset=6,shapes=3', 'ClassString edge=1,kset=6,shapes=3', 'ClassString edge=2,kset=7,shapes=3'],
 ['Class kset=0,n=2 @2', 'Class kset=1,n=2,shapes=4', 'ClassString kset=0', 'ClassBytes kset=1,n=3 @2', 'Class kset=0,n=2,cfull=1 @3', 'Class kset=5,n=3,shapes=5', 'ClassLong kset=0,hi=3 @2', 'ClassLong kset=1,hi=3 @3', 'Class kset=1,n=3,shapes=11', 'ClassDash n=5,shapes=3 @2'])

prop('C18', 'An ASCII set holds exactly what was added',
 'A set of ASCII symbols contains a byte exactly if it was added; the first and the last place of a member in a string, the count and the first member, and emptiness follow from that, and non-ASCII symbols are refused. The string forms list the members in order, and the full form every one.',
 ['inputs'], 'every set and every string',
 'the tests have a few sets; the borders of the 32-bit words and the symbol 127 are not covered',
 ['pkg/utils/asciiset.go'],
 [('MakeASCIISet, Add, Contains', 'pkg/utils/asciiset.go'), ('Index, LastIndex, Count, WriteString', 'pkg/utils/asciiset.go')],
 'sets of up to 2-3 arbitrary bytes; strings up to 2 bytes.',
 'larger sets and strings; string forms of sets with - or ] are not parsed again.',
 ['AsciiSet n=2', 'AsciiSetString n=3', 'AsciiSetLong lo=3,hi=3', 'AsciiSetLong lo=6,hi=7,fixed=1'],
 ['AsciiSet n=3,t=3 @2', 'AsciiSetString n=4 @2', 'AsciiSetLong hi=5', 'AsciiSetLong lo=6,hi=8,fixed=1'])

prop('C19', 'Length bounds of a glob hold for everything it matches',
 'Every string a glob means is at least as long (in bytes) as its minimal length and not longer than its maximal length, if it has one; a glob with a star has none. For a dotted glob the bounds are the sums over its levels, without the dots.',
 ['inputs'], 'every glob and every string it means',
 'the tests compare the bounds of some globs with numbers; that no string is cut off by the length shortcut needs all strings',
 ['glob/glob.go', 'gglob/gglob.go', 'pkg/items'],
 [('Glob.MinLen, MaxLen', 'glob/glob.go'), ('GGlob.MinLen, MaxLen', 'gglob/gglob.go'), ('MinLen, MaxLen of the items', 'pkg/items')],
 '40 part templates with arbitrary letters, 8 globs of 13-16 values, pairs of parts, dotted templates; strings up to 3-5 symbols of 1-4 bytes.',
 'longer globs.',
 ['GlobSize set=1,pieces=1,n=3 @2', 'GlobSize set=2,pieces=2,n=4', 'GlobSize set=3,pieces=1,n=2,shapes=4', 'GlobSize set=1,pieces=2,n=4,shapes=2,const=1', 'GlobSize set=8,n=4,shapes=2,const=1', 'GGlobSize set=0,n=5', 'GGlobSize set=2,n=3,shapes=4', 'GlobSize set=11,n=3,pieces=1,lower=1', 'GlobSize set=12,pieces=1,n=13,min=1', 'GlobLong lower=1,lo=1,hi=3,size=1,kinds=1,shapes=1', 'GlobSize set=14,pieces=1,n=2,shapes=11', 'GlobMany lower=1,lo=4,what=2,around=3 steps=40000000'],
 ['GlobSize set=4,n=6,const=1 @2', 'GlobSize set=1,pieces=2,n=4,shapes=4,const=1 @3', 'GGlobSize set=3,n=7 @2', 'GlobSize set=11,n=5,pieces=1,lower=1', 'GlobSize set=12,pieces=1,n=6,min=1,shapes=4,const=1', 'GlobLong lower=1,hi=3,size=1 @2', 'GlobSize set=14,pieces=1,n=3,shapes=11'])

prop('C20', 'Matching is read-only: concurrent and repeated calls are independent',
 'Matching strings, paths or tags against a glob, a query or a tree changes nothing that another call can see, so any number of goroutines may match against the same glob or tree and its answers do not depend on earlier calls. The same is true of parsing, expanding, escaping and splitting, which share nothing between calls.',
 ['inputs', 'schedules'], 'every glob, tree and string; every interleaving of calls (no shared location is ever written)',
 'the tests match in one goroutine, and the race detector sees only the paths a test takes; here every path within the bounds is shown to write to no location that existed before the call',
 ['glob/glob.go', 'glob/tree.go', 'gglob/gglob.go', 'gglob/gtree.go', 'gtags/tree.go', 'gtags/items.go', 'pkg/items', 'pkg/utils', 'pkg/escape', 'expand'],
 [('Match of globs and trees', 'glob, gglob, gtags'), ('MatchByTags', 'gtags/items.go')],
 'every path of one call within the bounds below writes to no memory that existed before it: 40 glob templates with strings up to 2; trees of 2 globs, dotted globs, queries; then the call is repeated and its answer compared with the meaning. No write means no interleaving matters, so schedules are not enumerated.',
 'stores given by the caller; Expressions that are expanded (they iterate); queries with regular expressions only as far as package regexp allows.',
 ['ReadGlob set=1,pieces=1,n=2', 'ReadGlob set=4,n=3,const=1', 'ReadTree set=0,n=2,order=1', 'ReadTree set=1,n=2,order=1', 'ReadTree set=3,n=3,order=1,const=1', 'ReadGGlob set=1,n=3,order=1', 'ReadTags cset=3,conds=1,queries=2,tags=1', 'ReadTags cset=6,conds=1,queries=2,tags=1,val=1', 'ReadParse set=0,n=0', 'ReadParse set=1,n=1,const=1', 'ReadLong lower=1,hi=0', 'ReadLong lower=1,lo=2,hi=2 steps=40000000'],
 ['ReadGlob set=1,pieces=2,n=3,const=1 @2', 'ReadTree set=1,n=3,order=1 @2', 'ReadGGlob set=4,n=3,order=1', 'ReadTags cset=2,conds=1,queries=2,tags=1', 'ReadTags cset=3,conds=2,queries=2,tags=1 @2', 'ReadParse set=0,n=1 @3'],
 note='Counterexamples are replayed under the race detector.')

prop('C21', 'Result stores keep every report, and nothing of earlier use',
 'A store of indexes, of expressions, or of all keeps every report in order; a store of the minimum, also as part of the store of all, keeps the lowest index reported, or -1 when nothing was. After a reset a store holds nothing of its earlier use, and all stores get the same reports from a tree.',
 ['inputs', 'histories'], 'every sequence of reports, resets and growths; every tree and string',
 'the tests use each store once; reuse after a reset, growing, and index 0 are sampled only',
 ['pkg/items/store.go', 'glob/tree.go', 'gglob/gtree.go', 'gtags/tree.go'],
 [('IndexStore, StringStore, MinStore, AllStore', 'pkg/items/store.go')],
 'up to 3 reports with arbitrary indexes, reset and growth between; trees of 2 globs, dotted globs and queries.',
 'longer sequences.',
 ['Stores reports=3', 'GlobTreeStores set=1,order=1', 'GGlobTreeStores set=1,n=3,order=1', 'TagsTreeStores cset=7,conds=1,queries=2,tags=2', 'StoresLong sizes=12'],
 ['Stores reports=5', 'GlobTreeStores set=3,order=1,n=3,const=1', 'TagsTreeStores cset=3,conds=2,queries=2,tags=1', 'StoresLong sizes=13'])

prop('C22', 'Parsed glob parts find and match their own meaning',
 'A part of a glob (a literal, a class, a list, ? or *) used alone finds the first place in a string where its meaning starts, with its length, and matches at the start or the end of a string exactly when its meaning stands there; a list finds each of its values. Parts joined one after another mean the sequence of their meanings, and parts are equal exactly when they are written the same way.',
 ['inputs'], 'every part and every string',
 'the tests check some parts as parts of whole globs; a wrong first place is hidden by later retries there',
 ['pkg/items'],
 [('Find, Match, MatchLast of String, Byte, Rune, RunesRanges', 'pkg/items'), ('StringList.FindN, MatchN, FindFirst, MatchFirst, Map', 'pkg/items/stringlist.go'), ('AppendItem, ItemsEqual, NextWildcardItem', 'pkg/items')],
 '17 fixed-length parts, 9 lists, pairs of 9 parts to join, 18x18 pairs to compare; arbitrary letters, strings up to 2-4 symbols of 1-4 bytes.',
 'groups (lists with wildcards) and chains, which do not find on their own.',
 ['ItemFind iset=0,n=3,shapes=2', 'ItemFind iset=0,n=2,shapes=4', 'ItemFind iset=1,n=4,shapes=2', 'ItemSkip n=3,shapes=4', 'ItemList n=3', 'ItemsAppend pieces=2,n=2', 'ItemsAppend pieces=3,n=3,const=1', 'ItemEqual', 'ItemLong iset=0,hi=3,const=1', 'ItemFind iset=0,n=3,shapes=11,const=1', 'ItemSkip n=3,skip=3,shapes=11', 'ItemFind far=6,iset=0,n=2,const=1', 'GlobManyVals lower=1,vals=2,wild=1,around=1,shapes=1', 'GlobMany lower=1,lo=1,hi=1 steps=40000000'],
 ['ItemFind iset=0,n=3,shapes=4 @3', 'ItemList n=4', 'ItemList n=2,shapes=2', 'ItemsAppend pieces=2,n=3 @2', 'ItemsAppend pieces=4,n=4,const=1 @2', 'ItemSkip n=5,shapes=4,skip=4', 'ItemLong iset=0,hi=5 @2', 'ItemFind iset=0,n=3,shapes=11'])

prop('C23', 'Skipping symbols steps over whole symbols from either end',
 'Skipping a number of symbols from the start or from the end of a string steps over exactly this number of whole symbols, each invalid byte being one, and tells when the string has fewer.',
 ['inputs'], 'every byte string and every count',
 'the tests skip in some strings; mixed widths and invalid bytes are not covered',
 ['pkg/utils/string.go'],
 [('StringSkipRunes, StringSkipRunesLast', 'pkg/utils/string.go')],
 'every string up to 3-4 symbols of 1-4 bytes, every byte string up to 3, counts 0 to 4.',
 'longer strings.',
 ['SkipRunes n=3', 'SkipRunesBytes n=3', 'SkipLong hi=6', 'SkipRunesBytes n=3,pad=20'],
 ['SkipRunes n=4', 'SkipRunesBytes n=4 @2', 'SkipLong hi=8', 'SkipRunesBytes n=4,pad=24'])

prop('C24', 'The common start of globs and wildcard search are exact',
 'The common start of a list of globs starts every string that any of them matches, has no wildcards, and is the longest such common text before the first wildcard. Counting wildcards and finding the first or the last wildcard of a text see every wildcard symbol and nothing else.',
 ['inputs'], 'every list of globs and every text',
 'the tests have a few lists; globs that differ inside of a multibyte symbol or end early are sampled only',
 ['pkg/items/utils.go', 'gglob/utils.go'],
 [('IntersectGlobs', 'pkg/items/utils.go'), ('HasWildcard, IndexWildcard, IndexLastWildcard, WildcardCount', 'pkg/items/utils.go')],
 'lists of 1-3 of 16 templates over shared arbitrary letters and strings up to 2; texts up to 4 arbitrary bytes.',
 'longer lists.',
 ['Prefix n=2,globs=2', 'Prefix n=3,globs=3,const=1', 'Wildcards n=3', 'PrefixRaw raw=1,n=2,globs=2', 'PrefixRaw n=3,globs=3', 'PrefixRaw raw=1,n=3,globs=2', 'PrefixLong hi=2', 'WildcardsMany lo=0'],
 ['Prefix n=2,globs=3 @2', 'Wildcards n=5', 'PrefixRaw raw=1,n=2,globs=3', 'PrefixRaw raw=1,n=4,globs=2 @2', 'PrefixLong hi=5'])

prop('C25', 'A random example of a glob is matched by it',
 'A random example written for a glob, with any random choices, is a string that the glob matches and means: its prefix, one symbol of each class, one value of each list, symbols for ? and *, and its suffix.',
 ['inputs'], 'every accepted glob and every sequence of random numbers',
 'no test checks an example, and its content depends on random numbers',
 ['glob/glob.go', 'pkg/items'],
 [('Glob.WriteRandom', 'glob/glob.go'), ('WriteRandom of the items', 'pkg/items')],
 '40 part templates with arbitrary letters, all pairs with fixed letters, 27 whole globs and 19 of several wildcards in one value, 9 with 3-11 ? at once; every value of each random number.',
 'globs with empty classes; larger globs.',
 ['GlobRandom set=1,pieces=1 @3', 'GlobRandom set=0,pieces=2,const=1', 'GlobRandom set=1,pieces=2,const=1', 'GlobRandom set=3,pieces=2,const=1', 'GlobRandom set=4,const=1', 'GlobRandom set=8,const=1', 'GlobRandom set=5,const=1', 'GlobRandom set=7,const=1', 'GlobRandom set=12,pieces=1,const=1', 'RandomMany lower=1,hi=2 steps=40000000'],
 ['GlobRandom set=0,pieces=2 @3', 'GlobRandom set=5', 'GlobRandom set=4', 'GlobRandom set=1,pieces=3,const=1 @2', 'GlobRandom set=8', 'GlobRandom set=11,pieces=1,lower=1', 'GlobRandom set=12,pieces=1'],
 note='math/rand is encoded as an arbitrary number; a counterexample is replayed 500 times, as natively the numbers are not chosen.')

prop('C26', 'Spellings of the same glob have one normal form',
 'Globs that differ only in the order or repetition of the values of a list or of the symbols and ranges of a class, in the order of ? and * next to each other or in repeated stars, in empty brackets, or in brackets around one plain value or symbol (outside of other brackets), have the same normal form and the same length bounds, alone, inside of a larger glob, and as a level of a dotted glob, where a trailing dot does not matter either. A tree knows such a glob already when it has another spelling of it.',
 ['inputs'], 'every glob and every spelling of it',
 'the tests compare some normal forms with expected texts; the combinations of spellings with letters in any order, equal letters and neighbours are not covered',
 ['glob/glob.go', 'pkg/items/wildcard.go', 'pkg/items/stringlist.go', 'pkg/items/group.go', 'pkg/utils/runesranges.go'],
 [('Glob.Node from the items', 'glob/glob.go'), ('list sorting and deduplication', 'pkg/items/stringlist.go'), ('RunesRanges.Merge, WriteString', 'pkg/utils/runesranges.go'), ('GlobTree.Add', 'glob/tree.go')],
 '24 families of 3-7 spellings over shared arbitrary letters (which may be equal or neighbours) of 1-3 bytes, alone and with 7 other parts around.',
 'values with wildcards that are spelled differently inside of braces ({?*,a} and {*?,a}), which keep their spelling in part.',
 ['GlobSpelling around=7', 'GlobSpelling const=1', 'GlobSpelling many=1,lower=1,around=3', 'GlobManyVals lower=1,spell=1,vals=4 # lists of up to 130 values', 'SpellMany lower=1,lo=4 steps=40000000', 'SpellMany lower=1,hi=0 steps=40000000'],
 ['GlobSpelling n=0 @3', 'GlobSpelling around=7,dots=1', 'GlobSpelling many=1,lower=1 @2', 'GlobManyVals lower=1,spell=1,vals=5'])

prop('C27', 'Errors tell what is wrong, and only then the Must variants panic',
 'A rejected input gives an error of the kind that tells what is wrong: broken brackets give ErrNodeUnclosed or ErrNodeMissmatch (with the type rune for [ and list for {) with a part of the glob, an empty level ErrNodeEmpty with the path, what is not a seriesByTag call ErrQueryInvalid with the query, too many conditions ErrExprOverflow, text out of quotes or an open quote ErrNodeNotTerminated, a condition without a key or an operation or with a broken regular expression ErrExprInvalid with a part of it, and a broken tagged path ErrPathInvalid with the tag or name for its missing name; the text of each names this part, and in a glob or query the first thing that is wrong counts. Everything else is accepted: a query exactly if its conditions are well-formed, and each of these becomes a term. ParseMust panics exactly if Parse gives an error, with this error, and a tree gives it too.',
 ['inputs'], 'every glob text, dotted glob text, query and tagged path',
 'the tests do not look at the kind or the content of any error, and have a few malformed queries only',
 ['pkg/items/errors.go', 'gtags/errors.go', 'pkg/items/wildcard.go', 'glob/glob.go', 'gglob/gglob.go', 'gtags/tagged_term.go'],
 [('Parse, ParseMust', 'glob/glob.go'), ('Parse, ParseMust', 'gglob/gglob.go'), ('NextWildcardItem', 'pkg/items/wildcard.go'), ('seriesByTagArgs, ParseTaggedConditions', 'gtags/tagged_term.go'), ('PathTags and its variants', 'gtags/tagged_term.go')],
 'glob texts of up to 5 (dotted: 4) symbols over the parser alphabet and some multibyte and invalid bytes; queries of up to 7 symbols that mean something, bare, in a call, in a quoted condition and between two conditions; 126-130 conditions; paths up to 7 of 6 symbols, in the 6 variants.',
 'longer texts; which part of a glob an error names, beyond that it is a part of it.',
 ['GlobErrors gn=5', 'GlobErrors gn=3,raw=1', 'GGlobErrors n=4', 'QueryErrors n=6', 'PathErrors n=7', 'TagsLimit kind=1', 'ErrorsLong lo=0'],
 ['GlobErrors gn=6 @3', 'GGlobErrors n=6 @3', 'QueryErrors n=9 @3', 'PathErrors n=9'])

NA = []

# what the harnesses of long.go (long fixed runs with some symbolic symbols) add to the bounds
_LONG = {
 'C05': 'one addition, with an index near of those in use, to a tree of 300', 'C20': 'globs, texts, paths and escapes of 17 and 130 parts', 'C25': 'globs of 17-130 parts or values', 'C27': 'texts of 34-600 symbols',
 'C01': 'strings with broken bytes between symbols; runs of 9-65 symbols (thorough: 257) in globs and strings, with 1-2 symbolic symbols between; up to 4 symbols before, inside or after 513 (1025) fixed ones; lists of 15-130 (300) values; globs of 65 and 300 parts of one kind',
 'C02': 'a malformed part beside of 130-300 good ones', 'C03': 'strings with broken bytes; runs of 17-65 symbols; globs of 65 and 300 parts',
 'C04': 'strings with broken bytes; a symbol beside of 513 fixed ones; all long globs in one tree, 33-65 symbols; 40 (thorough: 130) globs of one shape; lists of 15-66 (300) values; globs of 300 parts',
 'C06': '5-17 and 300 levels with one symbolic level; levels of 9-1025 (4097) symbols', 'C07': '5-65 and 300 levels with one symbolic level',
 'C08': '5-17 and 300 levels; levels of 300 parts; levels of 65-1025 (4097) symbols; 40 (130) globs of one shape',
 'C09': 'keys and values of 9-65 (257) symbols; 9-128 conditions', 'C10': 'keys and values of 9-65 (257) symbols; 9 and 128 conditions and as many tags',
 'C11': 'keys and values of 9-65 symbols; 9 and 128 conditions and as many tags; 33 (130) queries which differ by a key, a value or the second condition',
 'C12': '9-513 tags; a prepared map with an arbitrary old key of 1 (2) bytes', 'C13': 'strings of up to 4097 symbols with arbitrary bytes between', 'C14': 'strings of up to 4097 symbols with escapes between',
 'C15': 'over a thousand strings of three globs', 'C16': 'over a thousand strings of three globs, limits around 1, 1000, 1024 and the count',
 'C17': 'strings of 9-65 symbols, broken bytes', 'C18': 'sets of up to 30 members, strings of 65 bytes; fixed sets, strings of 257-1025 bytes', 'C19': 'runs of 17-65 symbols, broken bytes; globs of 300 parts',
 'C26': 'lists of 15-130 (300) values in other orders, 17 and 300 wildcards or repeated values or symbols', 'C21': '7-4097 reports', 'C22': 'strings of 9-65 symbols (and 513 fixed ones) around the part, broken bytes', 'C23': 'strings of 9-1025 symbols with any symbol or broken byte, 3 (4) arbitrary bytes inside of 20 fixed ones', 'C24': 'common starts of 9-33 symbols, 2-33 globs; texts of 17-300 wildcards',
}
for _p in P:
    if _p['id'] in _LONG:
        _p['bounds'] += ' Long inputs: ' + _LONG[_p['id']] + '.'
