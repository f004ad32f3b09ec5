#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, technique, note))

BOUNDED = "Exhaustive within the bounds written in the evidence file (all words of the spaces are executed, none is sampled). "
TRUST = "Trusts the reference model of the harness, compared with Apache commons-codec 1.17.1 during development. "
DIFF = "explicit-state exploration of all words of bounded spaces, the real encoder in lockstep with a reference model"
SRC = "src/"

def encoder(id, name, file, statement, why, mechanism, configs):
    prop(id, name, statement, ["inputs", "configurations"],
         "For every word (any Unicode text) and every configuration: " + configs, why, [file], mechanism, DIFF,
         BOUNDED + TRUST + "Words that need more symbols than the bounds, outside of the alphabets, aren't covered.",
         observe=["Encoder::encode"])

prop("C01", "No word makes an encoder or a comparison panic or loop",
     "Encoding any text, or comparing any two texts, with any encoder built with any configuration its constructor accepts (including limits of zero, and any other one such that a code fits in memory: Phonex completes its codes up to its limit), returns normally. It never panics, aborts, overflows or runs forever, whatever the scripts, the length, the case and the punctuation of the text.",
     ["inputs", "configurations"], "Every text and every pair of texts, every encoder, every configuration.",
     "Tests encode a few hundred fixed names, nearly all ASCII, mostly with default limits; panics hide in multi-byte characters, empty codes and one-off positions.",
     ["src/lib.rs", "src/helper.rs", "src/caverphone.rs", "src/cologne.rs", "src/daitch_mokotoff.rs", "src/double_metaphone.rs", "src/match_rating_approach.rs", "src/metaphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/refined_soundex.rs", "src/soundex.rs"],
     [("character based slices clamped to their bounds", "src/helper.rs CharSequence"), ("main loops that always go forward", "src/double_metaphone.rs double_metaphone, src/metaphone.rs encode")],
     "exhaustive enumeration of bounded word spaces on the real encoders, panic, abort and hang detection",
     BOUNDED + "A call that takes more than 90 s is a hang. Built with overflow checks and debug assertions. Beider-Morse's totality is decided by C20, C21, C23 and C28, where a panic is a violation too.",
     observe=["Encoder::encode", "Encoder::is_encoded_equals", "SoundexCommons::difference"])

prop("C02", "A code depends on nothing but the configuration and the word",
     "What a call returns depends only on the configuration of the encoder and on its arguments: not on the calls made before, by this instance, by its clones, by other instances or by other encoders, nor on their number or their order, nor on an earlier call that failed. An instance is never changed by encoding.",
     ["histories", "configurations"], "Every finite sequence of calls, on any instances, with any words.",
     "A test makes a handful of calls on a fresh instance; a cache or a buffer kept between calls needs particular pairs of calls in a particular order.",
     ["src/lib.rs", "src/beider_morse/engine.rs", "src/beider_morse/lang.rs", "src/beider_morse/rule.rs", "src/daitch_mokotoff.rs", "src/double_metaphone.rs", "src/metaphone.rs", "src/match_rating_approach.rs"],
     [("encoders take &self and keep no interior mutability", "src/*.rs"), ("rules compiled once, read only", "src/daitch_mokotoff.rs, src/beider_morse/rule.rs")],
     "exhaustive exploration of call histories (all pairs first in a process, de Bruijn histories holding all words of calls of bounded length) against memoryless reference models",
     "Builders and calls that fail are among the calls. All pairs of calls in fresh processes, all adjacent words of 2, 3, 4, 9 and 16 calls (the long ones over few calls) on shared instances, on new instances and on new threads. Trusts the reference models. An effect that needs more distinct calls than that isn't reached.",
     state=[("static or thread local data", "what calls could share; there is none but the embedded configuration", "src/")])

prop("C03", "Encoders can be shared by threads, calls don't interfere",
     "Every encoder, builder and configuration can be shared and sent between threads, and calls made at the same time, on the same instance or not, each return what they return alone. No interleaving makes a call fail, hang, or see data being built by another one.",
     ["schedules"], "Every interleaving of two calls made by two threads, up to one preemption (two in the thorough tier, for a few pairs).",
     "Tests are sequential; an interleaving needs a preemption between two given instructions.",
     ["src/lib.rs", "src/beider_morse/mod.rs", "src/beider_morse/engine.rs", "src/beider_morse/lang.rs", "src/daitch_mokotoff.rs", "src/double_metaphone.rs"],
     [("no shared mutable state", "src/*.rs"), ("Send and Sync by construction", "src/lib.rs Encoder")],
     "stateless model checking of the compiled code: instruction-level single-step scheduler, one preemption at every instruction that may touch shared memory (partial order reduction)",
     "Encoding calls, comparisons and builders. Two threads, one call each, one preemption (the thorough tier also preempts the second call once), sequentially consistent memory (the weaker reorderings of the hardware and the compiler aren't modelled), the C library isn't interrupted. x86-64 only.")

S = "Soundex mapping of 26 letters"
encoder("C04", "Soundex is its classical definition, for every mapping", "src/soundex.rs",
  "The code of a text is empty if it has no ASCII letter; otherwise it is its first letter in upper case followed by the digits of the next letters, padded with zeros to four characters. Letters without mapping ('-') are ignored, a digit equal to the one of the previous coded letter is skipped, zeros (vowels) separate equal digits but aren't written, and H and W don't separate equal digits when that rule is active (in the default mapping, or when asked for).",
  "Tests check some tens of names with the built-in mappings; runs of H and W, silent letters and custom mappings make sequences they don't have.",
  [("get_mapping_code, encode", "src/soundex.rs"), ("is_special_case H/W handling", "src/soundex.rs")], "the default, genealogy and custom mappings, with and without the H/W rule.")
encoder("C05", "Refined Soundex encodes every letter, repeated digits written once", "src/refined_soundex.rs",
  "The code of a text is empty if it has no ASCII letter; otherwise it is its first letter in upper case followed by the digit of every letter, first one included, in the order of the text, where a digit equal to the one just before isn't written again. Characters of the text that aren't ASCII letters are ignored, and the code isn't limited in length. Any character can be the code of a letter: none has a special meaning ('-' and 0 are written as any other).",
  "Tests check a few words with the default mapping.",
  [("encode", "src/refined_soundex.rs")], "the default and custom mappings.")

prop("C06", "Comparisons say exactly what the codes say, symmetrically",
     "Two texts are encoded equal if and only if their codes are the same (for Double Metaphone the primary codes, or the alternate ones when asked for), and the difference of two texts by Soundex or Refined Soundex is the number of positions where their codes have the same character, up to the shorter one. Both don't depend on the order of the arguments.",
     ["inputs", "configurations"], "Every pair of texts (including empty and not encodable ones), every encoder.",
     "Tests compare a few pairs of names; the pairs where a code is empty, longer than the other one, or equal only in its alternate are few.",
     ["src/lib.rs", "src/helper.rs", "src/soundex.rs", "src/refined_soundex.rs", "src/double_metaphone.rs"],
     [("is_encoded_equals, difference_encoded", "src/lib.rs"), ("is_double_metaphone_equal", "src/double_metaphone.rs")],
     "exhaustive enumeration of all pairs of bounded word spaces, on the real code against the reference models",
     BOUNDED + TRUST, observe=["Encoder::is_encoded_equals", "SoundexCommons::difference", "DoubleMetaphone::is_double_metaphone_equal"])

encoder("C07", "Caverphone 1.0 is the published rewriting, on six characters", "src/caverphone.rs",
  "The code of a text is the result of the published Caverphone 1.0 rewriting steps, in their order, on its letters a to z (case doesn't matter, all other characters are removed first), completed with 1 and cut to six characters. A text without letter gives 111111.",
  "Tests check a few hundred words; the steps interact (each one rewrites what the previous ones left) on sequences they don't contain.",
  [("rewriting steps", "src/caverphone.rs Caverphone1::encode"), ("helpers that replace parts of the text", "src/helper.rs")], "there is none.")
encoder("C08", "Caverphone 2.0 is the published rewriting, on ten characters", "src/caverphone.rs",
  "The code of a text is the result of the published Caverphone 2.0 rewriting steps, in their order, on its letters a to z (case doesn't matter, all other characters are removed first), completed with 1 and cut to ten characters. A text without letter gives 1111111111.",
  "Tests check a few hundred words; the steps interact on sequences they don't contain.",
  [("rewriting steps", "src/caverphone.rs Caverphone2::encode")], "there is none.")
encoder("C09", "Cologne phonetics codes each letter by its neighbours", "src/cologne.rs",
  "The code of a text is made by giving each letter the digits of the published Kölner Phonetik table, that depend on the previous and next letters (umlauts count as their vowel, ß as S, H and other characters have no code), then repeated digits are written once and all zeros but a leading one are removed. Case doesn't matter.",
  "Tests check some tens of German words; contexts of C, D, T, P and X around ignored characters are rarely met.",
  [("encode, CologneOutputBuffer", "src/cologne.rs")], "there is none.")
prop("C10", "Built-in Daitch-Mokotoff codes follow the rule table with all branches",
     "With the built-in rules, a text is coded by applying at each position the rule with the longest matching pattern (and only there), choosing its replacement by position (start of the text, before a vowel, or elsewhere), and not writing one that repeats the previous one except between M and N. Codes have six digits, padded with zeros: with branching all those the alternatives of the rules produce, once each, in the order of the alternatives, without branching only the first one. White space is ignored, case doesn't matter, and accents are folded when asked for.",
     ["inputs", "configurations"], "Every text, with and without branching and ASCII folding.",
     "Tests check about a hundred names; branching and MN/NM interplay depends on sequences of rules.",
     ["src/daitch_mokotoff.rs", "rules/dmrules.txt"], [("inner_soundex, Branch", "src/daitch_mokotoff.rs"), ("longest pattern first", "src/daitch_mokotoff.rs")],
     DIFF, BOUNDED + TRUST, observe=["DaitchMokotoffSoundex::soundex", "DaitchMokotoffSoundex::inner_soundex", "Encoder::encode"])
prop("C11", "Custom Daitch-Mokotoff rules mean the same as the built-in ones",
     "An encoder built from any well formed rule text codes every word as its rules say: longest pattern first wherever it is in the text, the first of two rules with the same pattern, replacement by position, alternatives separated by '|' (an empty one adds nothing), folding lines applied character by character when folding is active. The order of the other lines, comments and blank lines don't change the codes.",
     ["programs", "inputs"], "Every rule program, every word.",
     "Tests load one custom rule text; the meaning of overlapping patterns, empty or equal alternatives needs particular programs.",
     ["src/daitch_mokotoff.rs", "src/rules_parser.rs"], [("DaitchMokotoffSoundexBuilder::build", "src/daitch_mokotoff.rs"), ("parsers of the lines", "src/rules_parser.rs")],
     "exhaustive enumeration of bounded rule programs, each one executed on all words of a bounded space, against a reference interpreter",
     BOUNDED + TRUST, observe=["DaitchMokotoffSoundexBuilder::build", "DaitchMokotoffSoundex::inner_soundex"])
prop("C12", "Wrong Daitch-Mokotoff rules are refused with their exact line",
     "A rule text is accepted if and only if each line is blank, a comment, a folding of one character or a rule with a non-empty pattern and three replacements; comments may end a line or span several ones. Otherwise building the encoder returns an error, never a panic, that carries the number (from 1, in the whole text) and the content of the first wrong line, and shows them in its message.",
     ["programs"], "Every text given as rules.",
     "Tests have a few malformed lines, none after a multi-line comment, at the end of the text without a line feed, or with Windows line feeds.",
     ["src/daitch_mokotoff.rs", "src/rules_parser.rs", "src/lib.rs"], [("parse_rules", "src/daitch_mokotoff.rs"), ("multiline comment, end of line", "src/rules_parser.rs"), ("ParseError", "src/lib.rs")],
     "exhaustive enumeration of bounded rule texts (sequences of lines and sequences of characters), verdict and diagnosis against a reference parser",
     BOUNDED + TRUST, observe=["DaitchMokotoffSoundexBuilder::build", "PhoneticError"])
encoder("C13", "Match Rating codes follow the published steps", "src/match_rating_approach.rs",
  "The code of a text is made by trimming it, returning nothing for a text of one character or less, removing punctuation and spaces, folding accented letters to their base letter, removing vowels but a leading one, writing double consonants once, and keeping the first three and last three characters when more than six are left.",
  "Tests check some tens of names.", [("encode", "src/match_rating_approach.rs"), ("remove_vowel, remove_double_consonants, get_first_3_last_3", "src/match_rating_approach.rs")], "there is none.")
prop("C14", "Match Rating compares by the published similarity and thresholds",
     "Two texts match when, once both are coded, the lengths of their codes differ by less than three and the similarity left after removing the characters they share, first from the left then from the right, reaches the minimum of the sum of their lengths (5 up to 4, 4 up to 7, 3 up to 11, 2 at 12). Equal texts of at least two characters always match, texts that are blank or a single character never do, and neither the case nor the order of the arguments matters.",
     ["inputs"], "Every pair of texts.", "Tests compare some tens of pairs; the removal depends on how equal characters are placed in both codes.",
     ["src/match_rating_approach.rs"], [("is_encoded_equals", "src/match_rating_approach.rs"), ("left_to_right_then_right_to_left_processing, get_min_rating", "src/match_rating_approach.rs")],
     "exhaustive enumeration of all pairs of bounded word spaces, the real comparison against a reference model",
     BOUNDED + TRUST, observe=["MatchRatingApproach::is_encoded_equals"])
encoder("C15", "Metaphone codes each letter by its published context rules", "src/metaphone.rs",
  "The code of a text is made letter by letter in upper case with the published Metaphone rules (initial exceptions, silent letters, soft and hard C and G, CH, SCH, TH, PH, SH, TIO, CIA, W and Y before vowels, final MB, repeated letters once except C). Characters are counted, not bytes: a character that isn't a letter has no code but takes its place in the contexts.",
  "Tests check a few tens of words.", [("encode", "src/metaphone.rs"), ("is_next_char, is_previous_char, region_match", "src/metaphone.rs")], "every maximum length, or none.")
encoder("C16", "Double Metaphone gives both codes of the published rules", "src/double_metaphone.rs",
  "The primary and alternate codes of a text are those of the published Double Metaphone rules (as implemented by Apache commons-codec), letter by letter with their left and right contexts, Slavo-Germanic detection, silent starts and all language exceptions. The text is trimmed and its case doesn't matter; characters are counted, not bytes, and those without rule take their place but have no code.",
  "Tests check about 1,200 English words, none of which triggers all branches of the 20 letters, nor multi-byte characters around them.",
  [("handle_* functions", "src/double_metaphone.rs"), ("contains, CharSequence", "src/helper.rs, src/double_metaphone.rs")], "every maximum length, or none.")
encoder("C17", "NYSIIS codes are those of the published rewriting", "src/nysiis.rs",
  "The code of a text is made from its letters in upper case by the published NYSIIS steps: rewriting the start, rewriting the end, then each letter depending on its neighbours, writing repeated letters once, and removing final S, AY and A. The strict form keeps the first six characters of it.",
  "Tests check about a hundred names.", [("encode", "src/nysiis.rs"), ("transcode_remaining", "src/nysiis.rs")], "strict or not.")
encoder("C18", "Phonex codes are those of the published algorithm", "src/phonex.rs",
  "The code of a text is made from its letters in upper case by the published Phonex steps: removing final S, rewriting the start, then the first letter followed by the digits of the next ones depending on their neighbours, without repeated digits. It always has exactly the configured number of characters, completed with zeros.",
  "Tests check some tens of names with the default length.", [("encode, pre_process, transcode", "src/phonex.rs")], "every number of characters.")
prop("C19", "A maximum length only cuts a code: prefixes and fixed sizes hold",
     "For an encoder with a maximum length, the code of any text with limit n is exactly the first n characters of its code without limit, whatever n (Metaphone, both codes of Double Metaphone, Phonex completed with zeros, strict NYSIIS at six). Fixed size codes have their size for every text: 4 for Soundex (or empty), 6 and 10 for Caverphone, at most 6 for Match Rating.",
     ["inputs", "configurations"], "Every text and every limit.",
     "Tests use the default limit and one or two others; a rule that emits two characters can cross the limit only on certain words.",
     ["src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/soundex.rs", "src/caverphone.rs", "src/match_rating_approach.rs"],
     [("DoubleMetaphoneResult append and is_complete", "src/double_metaphone.rs"), ("truncations", "src/nysiis.rs, src/phonex.rs, src/metaphone.rs")],
     "exhaustive enumeration of bounded words times limits on the real encoders, prefix relation between executions",
     BOUNDED + "No reference model: executions of the implementation are compared with each other.", observe=["Encoder::encode"])

BM = ["src/beider_morse/engine.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs"]
prop("C20", "Beider-Morse with commons-codec rules gives all its phonemes",
     "With the rule files of Apache commons-codec, for the three name types and both precisions, the code of a text holds exactly the phonemes of the Beider-Morse algorithm for the languages guessed from it, joined as documented, each one once, in their order. Prefixes of names are handled in both ways and the number of phonemes kept at each step is bounded.",
     ["inputs", "configurations"], "Every text, name type and rule type.",
     "Tests check a few tens of names; there are thousands of rules with contexts.",
     BM, [("PhonemeBuilder, apply_final_rules", "src/beider_morse/engine.rs"), ("Rules::load, pattern_and_context_matches", "src/beider_morse/rule.rs"), ("guess_languages", "src/beider_morse/lang.rs")],
     DIFF, BOUNDED + TRUST, observe=["BeiderMorse::encode"])
prop("C21", "Beider-Morse executes any rule tables as its rules say",
     "With any well formed rule directory, encoding applies at each position the first rule whose pattern, left and right contexts match, expands its phonemes with their languages (a phoneme whose languages don't intersect the current ones is dropped), then rewrites the phonemes with the final rules, and keeps at most the configured number of phonemes. Contexts match as regular expressions anchored at the position, and includes, comments and blank lines don't matter.",
     ["programs", "inputs", "configurations"], "Every rule directory, every text, every setting.",
     "Tests load one rule directory.",
     BM + ["src/beider_morse/regex_optim.rs", "src/rules_parser.rs"],
     [("optimised forms of regular expressions", "src/beider_morse/regex_optim.rs"), ("Rule, Rules", "src/beider_morse/rule.rs"), ("PhonemeBuilder", "src/beider_morse/engine.rs")],
     "exhaustive enumeration of bounded rule directories, each one loaded and executed on all words of a bounded space, against a reference interpreter",
     BOUNDED + TRUST, observe=["ConfigFiles::new", "BeiderMorse::encode"])
prop("C22", "Beider-Morse guesses and restricts languages as its rules say",
     "The languages guessed from a text are all languages at first; each rule that matches keeps only its languages if it accepts them, or removes them if not, and an empty result means any language. Encoding with an explicit set of languages uses that one, the rules of the language when there is a single one, else those for any.",
     ["programs", "inputs", "configurations"], "Every sequence of language rules, every text, every explicit set.",
     "Tests check some names with the shipped rules.",
     ["src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/beider_morse/engine.rs"], [("Lang::guess_languages", "src/beider_morse/lang.rs"), ("LanguageSet", "src/beider_morse/languages.rs"), ("encode_with_languages", "src/beider_morse/engine.rs")],
     "exhaustive enumeration of bounded sequences of language rules and language sets, against a reference model that reveals the guessed set",
     BOUNDED + TRUST, observe=["BeiderMorse::encode", "BeiderMorse::encode_with_languages"])
prop("C23", "Beider-Morse handles name prefixes and several words as documented",
     "A text is trimmed and put in lower case; for the generic type, \"d'\" and the known prefixes give both the code with and without the prefix joined; for the other types, when concatenating, words that are known prefixes are left out (after removing what is before the last apostrophe of each word, for Sephardic). Words are coded together when concatenating, otherwise each one on its own with the codes joined by '-'; hyphens separate words.",
     ["inputs", "configurations"], "Every text made of words, prefixes and separators, every name type, both modes.",
     "Tests have a few prefixes; spaces, several prefixes, prefixes alone or at the end aren't.",
     ["src/beider_morse/engine.rs", "src/beider_morse/mod.rs"], [("encode, prefixes", "src/beider_morse/engine.rs")],
     "exhaustive enumeration of bounded sequences of name parts with transparent rule tables, against a reference model",
     BOUNDED + TRUST, observe=["BeiderMorse::encode"])
prop("C24", "A damaged Beider-Morse rule directory is refused with its exact cause",
     "Loading a rule directory either succeeds, or returns an error that tells the cause, and never panics, loops or ignores the damage: a missing file, a file that isn't UTF-8, an unknown or malformed line, a wrong regular expression, a missing or recursive include. The error for a line that isn't understood carries its file, its number and its content; a wrong context or phoneme, a missing file and a missing language file have their own kind of error.",
     ["fault_sequences", "programs"], "Every missing file, every truncation, every replaced byte or line of a rule directory.",
     "Tests load right directories and a few wrong lines.",
     ["src/beider_morse/mod.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/rules_parser.rs", "src/lib.rs"],
     [("ConfigFiles::new", "src/beider_morse/mod.rs"), ("BMError, ParseError", "src/lib.rs"), ("resolve of includes", "src/beider_morse/rule.rs")],
     "exhaustive fault enumeration on bounded rule directories (missing files, truncation at each byte, replacement of each character and line), outcome against a reference loader",
     BOUNDED + TRUST + "The faults are in the files, not in the calls to the operating system.", observe=["ConfigFiles::new"])
prop("C25", "Sets of languages are a lattice: merge, restrict and queries agree",
     "Merging two sets of languages is their union and restricting their intersection, where 'any' is the largest one and 'none' the smallest; both are commutative, associative and idempotent, and membership, emptiness, singleton and equality tests say what the elements are. A set built from names doesn't depend on their order or repetition.",
     ["histories", "inputs"], "Every sequence of operations on every sets.",
     "Tests check a few pairs.", ["src/beider_morse/languages.rs"], [("restrict_to, merge, is_empty, is_singleton, contains", "src/beider_morse/languages.rs")],
     "exhaustive exploration of all operation sequences of bounded length over bounded sets, against a model of sets",
     BOUNDED, observe=["LanguageSet"])
prop("C26", "Character slices are those of the characters, never panicking",
     "Indexing a character sequence by any range (from, to, inclusive, full) gives exactly the characters of the text at these positions, whatever the size in bytes of the characters; bounds after the end are clamped to it, and an empty or reversed range is an empty text. Its length is its number of characters.",
     ["inputs"], "Every text, every range.", "Tests slice two words.", ["src/helper.rs"], [("Index for CharSequence", "src/helper.rs")],
     "exhaustive enumeration of all bounded texts times all ranges, against a vector of characters", BOUNDED, observe=["CharSequence"])
prop("C27", "Encoders read back from what was written code the same",
     "Every encoder, configuration and error that can be serialized is equal to its copy once serialized and deserialized, and the copy of an encoder gives the same codes for every text, its limits and mappings included. A clone gives the same codes too.",
     ["configurations", "inputs"], "Every serializable value, every text.", "Tests do not round-trip, or only defaults.",
     ["src/lib.rs", "src/daitch_mokotoff.rs", "src/soundex.rs", "src/refined_soundex.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/beider_morse/mod.rs", "src/beider_morse/languages.rs"],
     [("derived Serialize and Deserialize", "src/*.rs")],
     "exhaustive enumeration of bounded configurations times words, execution of the original and of its copy compared", BOUNDED, observe=["serde"])
prop("C28", "The embedded Beider-Morse configuration codes as the 'any' rules say",
     "With the embedded configuration, for the three name types and both precisions, the code of a text holds exactly the phonemes of the Beider-Morse algorithm with the embedded rules, each one once, in their order, without needing any file.",
     ["inputs", "configurations"], "Every text, name type and rule type.", "Tests check a few names.",
     BM + ["src/beider_morse/mod.rs"], [("embedded rule texts", "src/beider_morse/mod.rs, rules/"), ("PhonemeBuilder", "src/beider_morse/engine.rs")],
     DIFF, BOUNDED + TRUST, observe=["ConfigFiles::default", "BeiderMorse::encode"])
prop("C29", "Case and ignored characters never change a code",
     "Changing the case of any letters of a text that have exactly one upper and one lower case form doesn't change its code, for all encoders. For Soundex, Refined Soundex and Caverphone adding characters that aren't ASCII letters anywhere doesn't change it, as for NYSIIS and Phonex with characters that aren't letters, and for Daitch-Mokotoff with white space.",
     ["inputs"], "Every text, every change of case, every insertion.", "Tests compare a few spellings of names.",
     ["src/soundex.rs", "src/refined_soundex.rs", "src/caverphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/cologne.rs", "src/match_rating_approach.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/daitch_mokotoff.rs"],
     [("cleaning of the input", "src/helper.rs, src/lib.rs")],
     "exhaustive enumeration of bounded words times all single changes, executions of the implementation compared with each other",
     BOUNDED + "No reference model.", observe=["Encoder::encode"])
prop("C30", "Mappings, name types and conversions accept exactly what is documented",
     "A Soundex or Refined Soundex mapping text is accepted if and only if it has 26 characters, each letter then has the mapping at its place, and all ways to build the same mapping give the same encoder. Name types are read from 'ash', 'gen' and 'sep' or the name of their languages file and from nothing else, and what isn't accepted returns an error that gives it back, never a panic.",
     ["inputs", "configurations"], "Every text given as mapping or name type.", "Tests parse two mappings and two name types.",
     ["src/soundex.rs", "src/refined_soundex.rs", "src/beider_morse/mod.rs", "src/lib.rs"], [("FromStr, TryFrom, From", "src/soundex.rs, src/refined_soundex.rs, src/beider_morse/mod.rs")],
     "exhaustive enumeration of bounded texts and mappings, verdict and behaviour against a reference model", BOUNDED, observe=["FromStr", "TryFrom"])

prop("C31", "Builders and defaults make exactly the encoder that was asked for",
     "Whatever the sequence of calls on a Beider-Morse or Daitch-Mokotoff builder, the encoder that is built has, for each setting, the last value that was given, or the documented default one (generic names, approximate rules, words concatenated, 20 phonemes; ASCII folding) if none was: the order of the calls on different settings doesn't matter, building doesn't use up nor change a Beider-Morse builder, clones of builders and of configurations go on independently. The default encoders are those made with their documented settings (Soundex and Refined Soundex with the US English mappings, four characters for Metaphone, Double Metaphone and Phonex, strict NYSIIS).",
     ["histories", "configurations", "inputs"], "Every sequence of calls on builders and their clones, every text.",
     "Tests call each setter once or twice, in one order, on one builder.",
     ["src/beider_morse/mod.rs", "src/daitch_mokotoff.rs", "src/soundex.rs", "src/refined_soundex.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs"],
     [("BeiderMorseBuilder, DaitchMokotoffSoundexBuilder", "src/beider_morse/mod.rs, src/daitch_mokotoff.rs"), ("Default for the encoders", "src/*.rs")],
     "exhaustive exploration of all sequences of builder calls of bounded length, the settings kept by a state machine, encoders told apart by tables made for that",
     BOUNDED + TRUST, observe=["BeiderMorseBuilder", "DaitchMokotoffSoundexBuilder", "Default"],
     state=[("settings of a builder", "name type, rule type, concatenation, limit; rules, folding", "src/beider_morse/mod.rs, src/daitch_mokotoff.rs")])
prop("C32", "Values are equal, ordered and hashed by what they hold",
     "For all public types that can be compared (encoders, results, sets of languages, name and rule types, character sequences, errors): values made the same way are equal, values that don't behave the same aren't, equality is symmetric, the order is total, transitive and agrees with equality and with the partial order, equal values have the same hash, and a clone is compared, hashed and shown as its original.",
     ["configurations", "inputs"], "Every pair and every triple of values of a type.",
     "Tests compare a value with itself, or two different defaults.",
     ["src/soundex.rs", "src/refined_soundex.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/daitch_mokotoff.rs", "src/beider_morse/languages.rs", "src/beider_morse/mod.rs", "src/helper.rs", "src/lib.rs"],
     [("derived PartialEq, Ord, Hash, Clone", "src/*.rs")],
     "exhaustive enumeration of all pairs and triples of bounded sets of values, laws of equality, order and hash, behaviours compared with each other",
     BOUNDED + "No reference model.", observe=["PartialEq", "Ord", "Hash", "Clone"])
prop("C33", "Codes don't depend on the features nor on the way the library is built",
     "With any set of its features, the library builds, and every encoder gives the same code for every text, with or without debug assertions, overflow checks and optimisations: features only add the default rules.",
     ["configurations", "inputs"], "Every set of features, every text.",
     "Tests are only built with debug assertions, with no feature or with all of them, and never compared between builds.",
     ["Cargo.toml", "src/lib.rs", "src/beider_morse/mod.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/beider_morse/rule.rs", "src/daitch_mokotoff.rs"],
     [("cfg(feature) items", "src/beider_morse/*.rs, src/daitch_mokotoff.rs")],
     "exhaustive enumeration of all sets of features times bounded word spaces, executions of all builds of the library compared with each other",
     BOUNDED + "No reference model. Builds for other processors or with other compilers aren't covered.", observe=["Encoder::encode"])
prop("C34", "What is shown holds what was given, and errors keep their cause",
     "What a public value shows holds all of what it is made of, whatever the characters: a Double Metaphone result shows its primary then its alternate code (results with the same codes show the same, others don't), a name type the name it is read from, a character sequence its text, an error the text it was given (a parse error its file if any, its line number, its description and the line), each kind of error in its own words. An error made from a parse error, a Beider-Morse error, a regular expression error or a system error is of the documented kind, shows its cause entirely, and gives it back as its source.",
     ["inputs"], "Every text, every kind of error, every field.",
     "Tests compare a few messages of simple errors.",
     ["src/lib.rs", "src/beider_morse/mod.rs", "src/double_metaphone.rs", "src/helper.rs"],
     [("ParseError, PhoneticError and their conversions", "src/lib.rs"), ("BMError, NameType", "src/beider_morse/mod.rs"), ("Display for DoubleMetaphoneResult", "src/double_metaphone.rs"), ("Display for CharSequence", "src/helper.rs")],
     "exhaustive enumeration of bounded texts in all the fields of all kinds of errors and values, the texts shown compared with what was given",
     BOUNDED + "No reference model.", observe=["Display", "Error::source", "From"])

with open(f"{here}/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1,
     "setup_cmd": "./run.sh setup",
     "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                 "technique": t, "level": "model_checking", "level_note": n} for p, t, n in P],
     "not_applicable": [],
     "notes": "No hooks: all properties are observed through the public API. properties.jsonl and this file are written by tools/manifest.py."}
with open(f"{here}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P: jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties, schemas satisfied")
except ImportError:
    pass
