#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note, technique, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note, technique))

EXH = "bounded-exhaustive exploration of the real code against a reference model"

p("S01", "Segments tile the text: offsets cover every byte once, in order",
  "For every text, dictionary and option set, the segments of a text are consecutive: the first starts at byte 0, each starts where the one before ends, the last ends at the length of the text, and none is empty. The text of each token is the bytes of its range, with Latin capitals in lower case where lower-casing applies. Segmenting does not change its input.",
  ["inputs", "configurations"], "every byte string, dictionary (any frequencies), AlphaNum/Alpha/Num and lower-casing options, recalculated or not",
  "The tests check a handful of sentences with one dictionary; ties, zero path lengths and odd bytes are never reached.",
  ["segmenter.go"], [("shortest path over words, back pointers, byte positions", "segmenter.go:segmentWords, updateJumper")],
  "every text to a length over representative atoms, every dictionary of small universes; periodic texts to 5000 repetitions", EXH, ["Segmenter.Segment", "Segmenter.ModeSegment", "Segment.Start/End/Token"])
p("S02", "Splitting a text into basic words loses nothing and follows the char classes",
  "Splitting a text gives pieces whose concatenation is the text, apart from the lower-casing of ASCII letters in Latin pieces. A maximal run of letters and numbers of at most two bytes each is one piece (each of them is a piece of its own with the alphanumeric option), and every other character, or invalid byte, is a piece of its own. The options that exclude letters or numbers from the runs make these characters pieces of their own.",
  ["inputs", "configurations"], "every byte string, all eight option sets, lower-casing on and off",
  "The tests split a few sentences; the classes of two-byte characters, invalid encodings and the ends of runs are not covered.",
  ["segmenter.go"], [("run state machine", "segmenter.go:SplitTextToWords, toLower")],
  "all sequences of 46 representative atoms to a length, every code point and every pair of bytes in context, periodic texts", EXH, ["Segmenter.SplitTextToWords", "SplitWords"])
p("S03", "Segmentation is a least-cost path; tokens carry the entries' data",
  "The segments of a text have the least total cost over all ways to cut it, where a dictionary word costs log2(total frequency / its frequency) and a basic word that is not in the dictionary costs a constant 32. A token of a dictionary word carries the frequency and part of speech of its entry; a word that is not in the dictionary has frequency 1 and part of speech x. Ties may be cut in any of the best ways.",
  ["inputs", "configurations"], "every dictionary and text", "The tests compare single sentences, they never compare with the other possible cuts.",
  ["segmenter.go", "dict_util.go"], [("dynamic programme", "segmenter.go:segmentWords"), ("cost of a word", "dict_util.go:CalcToken")],
  "independent dynamic programme over all cuts for every small dictionary and text (tolerance for float32)", EXH, ["Segmenter.Segment", "Segmenter.Cut"])
p("S04", "Search mode lists every word after its parts, losing no word",
  "The parts of a dictionary word are its least-cost cut into shorter words, without single Japanese kana, and in search mode the parts of a word are listed before it, from the first part on that is a kana word or can be cut itself, each with its own parts; words without such a part are listed alone. The segments of a text are the same in both modes, and in both modes the lists of words, of words with part of speech and the printed form list the same words in the same order. So the search listing always contains every word of the plain one, in its order.",
  ["inputs", "configurations"], "every dictionary, text and mode", "The tests hold three search listings of one dictionary; nested parts, kana and texts of one single word are not reached.",
  ["segmenter.go", "seg_utils.go", "dict_util.go"], [("sub-segments", "dict_util.go:CalcToken"), ("listing", "seg_utils.go:tokenToSlice, tokenToPos, tokenToString")],
  "every small dictionary and text, kana words, nested words to depth 4", EXH, ["Segmenter.Slice", "Segmenter.String", "Segmenter.Pos", "Token.Segments"])
p("D01", "Cut without HMM takes a most probable route through the dictionary",
  "Cutting without HMM gives words whose concatenation is the text (lower-cased if lower-casing is on, invalid bytes replaced). Apart from the joining of adjacent single ASCII letters and digits into one word, they are a cut with the greatest product of word frequency / total frequency, where a character that is no dictionary word counts with frequency 1 and stands alone. Entries with frequency zero and mere beginnings of words never count as words.",
  ["inputs", "configurations"], "every dictionary and text", "The tests pin the cut of a few sentences.",
  ["dag.go", "gse.go"], [("route calculation", "dag.go:getDag, calc"), ("joining", "dag.go:cutDAGNoHMM")],
  "every small dictionary with frequencies 0, small and large; all short texts; every best route is accepted", EXH, ["Segmenter.Cut(text, false)", "Segmenter.CutDAGNoHMM"])
p("D02", "Full mode lists exactly the dictionary words and the left-over characters",
  "Full mode lists every dictionary word of two or more characters at every position of the text, by start and then by length, and no other word. A character that begins no such word is listed alone exactly when it lies after the end of the item listed before it.",
  ["inputs", "configurations"], "every dictionary and text", "The tests pin the list of a few sentences.",
  ["dag.go"], [("all words at a position", "dag.go:getDag, cutAll")],
  "the space of D01 against the plain rule", EXH, ["Segmenter.CutAll"])
p("D03", "Search cut lists inner two and three character words, then the word",
  "Search cut with a chosen HMM option lists, for each word of the corresponding cut, first every two-character and then every three-character dictionary word of positive frequency that lies inside it and is shorter than it, by position, and then the word itself.",
  ["inputs", "configurations"], "every dictionary, text and HMM option", "The tests pin a few sentences.",
  ["dag.go"], [("inner words", "dag.go:cutForSearch")],
  "the space of D01 with long words, HMM on and off", EXH, ["Segmenter.CutSearch(text, hmm)"])
p("D04", "Cut with HMM keeps dictionary words and cuts only the unknown runs by HMM",
  "Cutting with HMM gives words whose concatenation is the text (lower-cased if lower-casing is on). They are a most probable route as without HMM in which each run of two or more adjacent single characters is cut by the HMM cut, unless the run is itself a dictionary word, when its characters stand alone. A given pair of regular expressions is used for the HMM cut of the runs.",
  ["inputs", "configurations"], "every dictionary, text, model and regular expression", "The tests pin the cut of a few sentences.",
  ["dag.go", "hmm/hmm_seg.go"], [("runs of single characters", "dag.go:cutDAG, hmm")],
  "the space of D01 with custom models and regexps; any best route and state path accepted", EXH, ["Segmenter.Cut(text, true)", "Segmenter.CutDAG"])
p("H01", "HMM cut is the best state path within Han blocks and keeps the text",
  "The HMM cut of a text gives words whose concatenation is the text: Han blocks are cut at the ends of words of a most probable begin/middle/end/single state path under the current model, runs of ASCII letters and digits (and decimal numbers) are words, and what lies between is one word. User expressions replace the two kinds of blocks, and for every expression the cut ends. A model given by the user is used until the default one is loaded, which gives the original cuts back.",
  ["inputs", "configurations"], "every text, model and regular expression", "Tests pin one sentence; ties, missing characters, other models and odd expressions are not reached.",
  ["hmm/hmm_seg.go", "hmm/viterbi.go"], [("Viterbi", "hmm/viterbi.go"), ("blocks", "hmm/hmm_seg.go:Cut")],
  "all emission tables over 2-3 characters at several levels against the enumeration of all state paths; default model over characters of its tables", EXH, ["hmm.Cut", "hmm.Viterbi", "hmm.LoadModel", "Segmenter.HMMCut"])
p("H02", "Loading an HMM model while others cut is atomic",
  "The HMM model is shared by all segmenters: while one loads a model (or a dictionary, which loads the default model), others may cut. Every HMM cut (of a text, or of each run of unknown characters when a text is cut with dictionary and HMM) gives what it gives under one single model, before or after the load, with no data race, crash or deadlock.",
  ["schedules"], "every interleaving of loads and cuts", "No test loads and cuts concurrently.",
  ["hmm/hmm_seg.go", "hmm/viterbi.go", "dict_util.go"], [("lock of the model", "hmm/hmm_seg.go:modelMu")],
  "every pair of operations as two threads, all schedules with up to two preemptions on the instrumented code, under the race detector", "stateless model checking of thread interleavings (preemption-bounded) with race detector", ["hmm.LoadModel", "hmm.Cut", "Segmenter.LoadDict"])
p("C01", "A loaded segmenter can be shared by any number of readers",
  "After loading, every operation that only reads (segmenting and cutting in all modes, lookups, filters, stop words, tagging, keyword extraction) may run from any number of goroutines on one segmenter: each gives what it gives alone, with no data race, crash or deadlock.",
  ["schedules", "inputs"], "every interleaving of every pair of reading operations", "The benchmark of goroutines is no test and checks no result.",
  ["segmenter.go", "dag.go", "trim.go", "stop.go", "hmm/hmm_seg.go", "hmm/pos/pos_seg.go", "hmm/idf/textrank.go", "hmm/idf/tag_extracker.go"], [("no writes to shared state after loading", "all reading operations")],
  "every pair of about 60 operations as two threads, every schedule with one preemption at every statement (two on a subset); race detector without the explorer's own synchronisation", "stateless model checking of thread interleavings (preemption-bounded) with race detector", ["all reading operations"])
p("C02", "The server answers concurrent requests as if one after another",
  "The answers of concurrent requests to add a word and to segment a text equal those of some order of the requests, an acknowledged word is used by every later request, and no request crashes, deadlocks or races with another. Each answer is the JSON of the words and parts of speech of the segmentation of its text under the chosen mode.",
  ["schedules", "histories"], "every interleaving and history of requests", "The server has no tests.",
  ["tools/server/server.go"], [("lock of the segmenter", "tools/server/server.go:segMu")],
  "the real handlers: all pairs of requests as threads, all schedules with one preemption (two for adds); all sequences of requests against a reference", "stateless model checking of thread interleavings (preemption-bounded) with race detector", ["/json", "/add"])
p("C03", "Objects built separately are independent, also when used at the same time",
  "Segmenters, taggers, keyword extracters and rankers, stop word and IDF dictionaries that were built separately share nothing but the HMM model and the package options. Nothing that is done to one of them - loading, changing, emptying, a failing load, stop words, use - changes what another gives, in any order of the steps, and they may be built, loaded, changed and used at the same time from different goroutines: each step gives what it gives alone, with no data race, crash or deadlock.",
  ["histories", "schedules"], "every pair of histories on separate objects, every order of their steps and every interleaving", "The tests use several segmenters but never compare with the use of one alone, and none at the same time.",
  ["dict_util.go", "dict_1.16.go", "stop.go", "dictionary.go", "hmm/idf/stop_words.go", "hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/pos/pos_seg.go"], [("stop words of each object", "stop.go; hmm/idf/stop_words.go"), ("dictionary of each object", "dictionary.go:NewDict")],
  "fifteen histories of three to six steps: every order of the steps of two of them with a third between, and chosen pairs as two threads with every schedule of one preemption at every statement (all pairs without), race detector", "explicit-state exploration of operation orders and stateless model checking of thread interleavings (preemption-bounded) of the real code, with race detector", ["Segmenter.LoadDict", "Segmenter.LoadStop", "TagExtracter.LoadStopWords", "idf.StopWord", "Idf.AddToken"])
p("T01", "The dictionary is a map: add keeps, remove removes only that word",
  "After every history of adding, removing and replacing words, looking a word up gives the frequency and part of speech with which it was last put in, or, if it is not in, that it is no word. Adding a word that is in changes nothing, removing one affects no other word (also not those that begin with it), removing or replacing a missing one is an error, and words that are empty or contain a zero byte are refused. Looking up the words along a text finds exactly the entries that begin it, shortest first; the total frequency is the sum over the words that are in.",
  ["histories"], "every history of dictionary changes", "The tests add and remove two words once.",
  ["dictionary.go", "dict_util.go"], [("trie and entries", "dictionary.go")],
  "every history to a depth from several dictionaries, with a reference map compared after every step", "explicit-state exploration of operation histories of the real code against a reference map", ["Segmenter.AddToken", "Segmenter.RemoveToken", "Segmenter.ReAddToken", "Segmenter.Find", "Segmenter.Value", "Dictionary.LookupTokens", "Dictionary.TotalFreq"],
  [("entries", "word to frequency and part of speech", "dictionary.go:Dictionary")])
p("T02", "Every loader reads the same entries from the same lines",
  "From well-formed lines (word, frequency, optional part of speech, in the format of the loader; a missing or invalid frequency as the options say) every loader - string, file, reader, list of maps, word by word - puts in the same entries: the first line of a word counts, words below the least frequency are left out, single characters get frequency 2, a line without part of speech has none. Line endings, a missing last line break, buffer and chunk sizes and empty lines make no difference. Afterwards texts are segmented as with the same words added one by one.",
  ["inputs", "configurations"], "every document of well-formed lines, loader, option set, line ending and chunking", "The tests load three documents with single loaders.",
  ["dict_util.go", "dict_1.16.go"], [("line parsing", "dict_util.go:Reader, ReadN, Size; dict_1.16.go:LoadDictStr")],
  "every document to a length over representative lines, all loaders and options, many buffer and chunk sizes", EXH, ["Segmenter.LoadDict", "Segmenter.LoadDictStr", "Segmenter.LoadDictMap", "Segmenter.Reader", "Segmenter.Read"])
p("T03", "A failing dictionary source is reported and puts in no broken word",
  "If the source of a dictionary fails at any point, loading ends and reports an error. Every word put in comes from a line that was read completely, and the words of the lines before the one in which it failed are in. Missing files and directories are reported, by the loaders of stop words and tags as well.",
  ["fault_sequences", "inputs"], "every point of failure of the source, kind of failure and chunking", "No test has a failing source other than a missing file.",
  ["dict_util.go", "stop.go", "hmm/idf/stop_words.go", "hmm/idf/tag_extracker.go", "hmm/pos/pos_seg.go"], [("error handling of the reading loop", "dict_util.go:Reader; stop.go:LoadStop")],
  "every byte position of failure of every document to a length, every kind of failure, several chunkings and buffer sizes; every set of missing default files, every loader of files", "exhaustive fault enumeration on the real code against a reference model", ["Segmenter.Reader", "Segmenter.LoadDict", "Segmenter.LoadStop"])
p("T04", "Loading adds to the dictionary, emptying resets only that segmenter",
  "After every history of loading (also of several files, languages and texts), emptying and changing one or two segmenters, the dictionary of each contains exactly the words loaded or added since it was last emptied, whatever the other one did. Loading or adding after emptying works as the first time, and without a dictionary no word is found. A failing load keeps the words that were in. A list of names loads the files of the named languages and paths, once each and in order.",
  ["histories", "fault_sequences"], "every history of loads, empties, changes and failures", "The tests load once per segmenter.",
  ["dict_util.go", "dict_1.16.go"], [("loaded state", "dict_util.go:LoadDict, LoadDictMap, Empty; dict_1.16.go:LoadDictStr"), ("file list", "dict_util.go:DictPaths")],
  "every history to a depth for one and two segmenters against a map, and of the loaders of the tagger, extracter and ranker; every list of names", "explicit-state exploration of operation histories of the real code against a reference map", ["Segmenter.LoadDict", "Segmenter.Empty", "DictPaths"])
p("T05", "Segmentation depends only on the entries, not on their history",
  "After every history of adding, removing and replacing words followed by recalculation, every segmentation mode gives for every text what a fresh dictionary with the same words, frequencies and parts of speech gives.",
  ["histories", "inputs"], "every history and text", "The tests never segment after removing or replacing.",
  ["dictionary.go", "dict_util.go", "segmenter.go", "dag.go"], [("entries, total frequency, sub-segments", "dictionary.go; dict_util.go:CalcToken")],
  "every history to a depth, every short text, every mode, compared with a fresh dictionary (ties compared by cost)", "explicit-state exploration of operation histories of the real code, differential oracle", ["Segmenter.Cut", "Segmenter.Segment", "Segmenter.CutSearch", "Segmenter.CutAll"])
p("W01", "Stop words are a set of each segmenter, and filters drop exactly its words",
  "After every history of loading, adding, removing and emptying stop words, a word is a stop word exactly if it was loaded or added and not removed since, and other segmenters are not affected. The stop filter keeps, in order, exactly the words that are neither empty nor stop words, and cutting with the filter is cutting and then filtering.",
  ["histories", "inputs"], "every history of stop word operations and list of words", "The tests load one file and filter one sentence.",
  ["stop.go", "trim.go", "dict_1.16.go"], [("map of stop words", "stop.go")],
  "every history to a depth for one and two segmenters against a set; every short list", "explicit-state exploration of operation histories of the real code against a reference set", ["Segmenter.IsStop", "Segmenter.Stop", "Segmenter.CutStop", "Segmenter.LoadStop"])
p("W02", "Trimming drops exactly symbols, punctuation and stop words; keeps the rest",
  "Each trimming operation keeps the words of its list that it should, in order and unchanged but for the symbols it removes: the symbol filters remove all symbols, spaces and punctuation and drop what is empty then, the punctuation filters drop words of only punctuation and spaces (for tagged words, those that begin with one), the tag filter drops the words of the given tags, and stop words are dropped unless switched off. The cutting versions equal cutting, then trimming; no operation changes its input.",
  ["inputs", "configurations"], "every list of words", "The tests trim one sentence each.",
  ["trim.go", "hmm/pos/pos_seg.go"], [("filters", "trim.go")],
  "every list of short words over representative runes, stop words on and off, against plain rules", EXH, ["Segmenter.Trim", "Segmenter.TrimPunct", "Segmenter.TrimPos", "Segmenter.PosTrim", "Segmenter.CutTrim"])
p("W03", "Text filters keep exactly the characters they should",
  "The text filters keep every character they should and drop every other, in order: the emoji filter drops characters of four bytes, the symbol filter drops symbols, spaces and punctuation, the language filter keeps letters and characters of that script, the HTML filter removes the shortest tags, and the splitters cut a text into runs of digits and others, or into characters, without loss. The kana test holds exactly for texts with Hiragana or Katakana.",
  ["inputs"], "every text", "The tests use one text per filter.",
  ["trim.go", "dict_util.go"], [("filters", "trim.go")],
  "every code point and every short text over representative atoms, markup and digits, against plain rules", EXH, ["FilterEmoji", "FilterSymbol", "FilterHtml", "FilterLang", "SplitNum", "Range", "IsJp"])
p("U01", "Tokens, joins and splits stand for their text and lose nothing",
  "A token made of a text has that text (Latin letters in lower case where lower-casing applies), the frequency and the part of speech it was made with (none if not given), and equals exactly that text and no other. Joining a list of words or of tagged words gives them in order with the separator between them (a space if not given), without the parts of speech if they are to be skipped. Splitting by an expression gives the pieces between its matches, as the standard split does; with a group the matches are listed too and the pieces concatenate to the text, for every limit but zero.",
  ["inputs", "configurations"], "every text, list, separator, expression and limit", "The tests join one list and split one text.",
  ["token.go", "dict_util.go", "seg_utils.go", "gse.go", "hmm/util/util.go"], [("comparison", "token.go:Equals"), ("joins", "seg_utils.go:Join; gse.go:CutStr, PosStr"), ("split", "hmm/util")],
  "every short text over representative atoms with every similar text, every short list with several separators, 34 expressions with limits", EXH, ["Token.Equals", "Token.Text", "Segmenter.ToToken", "Join", "Segmenter.CutStr", "Segmenter.PosStr", "util.RegexpSplit"])
p("K01", "POS tagging keeps the text and takes best routes and dictionary tags",
  "Tagged words concatenate to the text. Within runs of Han, letters and digits they are a cut with the greatest product of word frequencies (an unlisted character counts as 1) and carry the part of speech of their dictionary entry (x for what is no dictionary word); without HMM adjacent single ASCII letters and digits join to a word tagged eng. With HMM runs of unknown single characters are cut and tagged by a best path of the tagging model, numbers are tagged m, letters eng, the rest x.",
  ["inputs", "configurations"], "every dictionary and text", "The tests tag one sentence and print it.",
  ["hmm/pos/pos_seg.go", "hmm/pos/viterbi.go", "hmm/pos/dict.go", "hmm/util/util.go"], [("route and tags", "hmm/pos/pos_seg.go"), ("Viterbi", "hmm/pos/viterbi.go")],
  "every small dictionary and short text, every Han character in context, against an independent route search and Viterbi (any best one accepted)", EXH, ["pos.Segmenter.Cut"])
p("K02", "Tags are the words ranked by count times inverse document frequency",
  "The tags of a text are its words of two or more characters (after the HMM cut, without stop words), each with weight count / number of such words times its inverse document frequency, or times the median of the dictionary (0 if there is none) for a word that is not in it. They are in descending order of weight, ties by descending text, at most as many as asked for. The weights do not depend on how the dictionary was loaded or on map order.",
  ["inputs", "configurations"], "every text, dictionary and number of tags", "The tests print the tags of one text.",
  ["hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/idf/stop_words.go", "hmm/segment/segment.go"], [("weights", "hmm/idf/tag_extracker.go:ExtractTags"), ("median", "hmm/idf/idf.go")],
  "every text over a set of pieces, every small dictionary through every way of loading, every number of tags, orders of map iteration", EXH, ["TagExtracter.ExtractTags", "Idf.Freq"])
p("K03", "Keyword ranks are those of the co-occurrence graph, the same on every run",
  "The keywords of a text are the words of the allowed tags that lie within five words of another one, ranked by ten rounds of weighted PageRank (damping 0.85) over their co-occurrence counts and scaled to at most 1, in descending order, ties by descending text, at most as many as asked for. The same text gives the same keywords and weights on every run.",
  ["inputs", "configurations"], "every text, set of tags and number of keywords, every order of map iteration", "The tests print the keywords of one text.",
  ["hmm/idf/textrank.go"], [("graph and rank", "hmm/idf/textrank.go")],
  "every text over tagged pieces against an independent ranking; orders of map iteration enumerated", EXH, ["TextRanker.TextRank", "TextRanker.TextRankWithPOS"])
p("A01", "Occurrences and analysis give true offsets, frequencies and tags",
  "The search for occurrences gives, for each non-empty word, the offsets of a text found from its end without overlap, and ends for every text and list. The analysis of a list of words gives one entry per word, in order, with its frequency and tag of the dictionary; without a text the offsets are consecutive in bytes, or characters if asked, and with one each word that occurs there is given a place where it stands, different ones for repeated words as long as there are any.",
  ["inputs"], "every text and list of words", "One test pins one sentence.",
  ["dag.go"], [("occurrences", "dag.go:FindAllOccs"), ("analysis", "dag.go:Analyze")],
  "every short text and list against a plain search", EXH, ["FindAllOccs", "Segmenter.Analyze"])
p("A02", "The suggested frequency is just enough to keep a word whole",
  "The suggested frequency of a word is the larger of its present one and one more than the expected number of its parts standing together (product of frequency / total over the parts of its cut, times total, rounded down); for given parts it is the smaller of that number and the frequency of the whole, for no words 0. A word put in with the frequency suggested for it is kept whole by the cut without HMM.",
  ["inputs", "configurations"], "every dictionary and word", "One test pins two values.",
  ["dag.go"], [("frequency", "dag.go:SuggestFreq")],
  "every word and split over small dictionaries", EXH, ["Segmenter.SuggestFreq"])
p("R01", "Reading operations have no side effects",
  "No sequence of reading operations changes the dictionary, options, models or package variables, its inputs, or the results of earlier operations. Every operation gives what it gives as the first one, whatever ran before and in whatever order maps are iterated.",
  ["histories", "inputs"], "every sequence of reading operations", "The tests run single operations.",
  ["segmenter.go", "dag.go", "trim.go", "seg_utils.go", "hmm/hmm_seg.go", "hmm/pos/pos_seg.go", "hmm/idf/textrank.go"], [("no retained or shared buffers", "all reading operations")],
  "every sequence of two operations (three on a part) of about 60, with a deep hash of all state; orders of map iteration", "explicit-state exploration of operation histories of the real code, state hash invariant", ["all reading operations"])
p("X01", "No input makes an operation panic or run without end",
  "For every text, also with invalid encodings and zero bytes, and every dictionary and option set, also empty and odd ones, none at all and zero values, every operation ends without a panic, in a number of steps that grows with the length of its input.",
  ["inputs", "configurations", "histories"], "every byte string, dictionary and option set", "The tests use well-formed sentences.",
  ["segmenter.go", "dictionary.go", "dag.go", "trim.go", "hmm/hmm_seg.go", "hmm/pos/pos_seg.go"], [("loops and bounds", "all operations")],
  "every operation on every text over 46 atoms to a length and on periodic texts, counted steps", EXH, ["all operations"])

EXTRA = os.path.join(V, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q, _, _ in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks instrument a copy of /repo's working tree (src/inst) on every build. known_findings.txt lists the defects that were repaired."}
for q, note, tech in P:
    i = q["id"]
    m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking",
        "level_note": "Exhaustive within bounds on the real (instrumented) code: " + note + ". Trusts the reference models in src/mc and the Go tool chain; nothing is claimed beyond the bounds."})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")

# DESIGN.md sections
import re, subprocess
D = os.path.join(V, "DESIGN.md")
d = open(D).read()
descs = {}
B = os.path.join(V, "build", "mc")
if os.path.exists(B):
    for l in subprocess.check_output([B, "-list"], text=True).splitlines():
        i, _, _, t = l.split(" ", 3)
        descs[i] = t
bounds = {}
BF = os.path.join(V, "tools", "bounds.json")
if os.path.exists(BF):
    bounds = json.load(open(BF))
sec = ""
for q, note, tech in P:
    i = q["id"]
    sec += "\n### %s %s\n\nTechnique: %s. Enumerated: %s. Oracle and bounds: %s.%s\n" % (
        i, q["title"], tech, descs.get(i, ""), note, (" " + bounds[i]) if i in bounds else "")
if descs:
    d = re.sub(r"<!-- props -->.*<!-- /props -->", lambda m: "<!-- props -->" + sec + "<!-- /props -->", d, flags=re.S)
S = os.path.join(V, "tools", "detect.json")
det = json.load(open(S)) if os.path.exists(S) else {}
rows = "\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, b, "meta.json")))
    rows += "| %s | %s | %s | %s |\n" % (b, mt["property"], mt["needs"].replace("|", "/"), ", ".join(det.get(b, [])) or "-")
d = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->" + rows + "<!-- /seeded -->", d, flags=re.S)
open(D, "w").write(d)
