# What each check generates, against what it decides, and what that reaches beyond the tests.
DETAILS = {
"C01": ("1-3 model cards over 35 property kinds and X- extensions with groups and all parameters; each is rendered by our own renderer in a random legal spelling: letter case, CRLF/LF, folds, optional escapes, quoting, parameter and property order, date forms, version 3.0/4.0.",
        "the generating model; the parsed card is read field by field through the public fields into the same model and compared by kind and order (floats by bits, date-times with their offset).",
        "combinations of kinds, parameters, escapes and spellings; the tests hold a few dozen cards with plain values."),
"C02": ("raw values of N, ORG, ADR, CATEGORIES, GENDER, CLIENTPIDMAP and typed lists as strings over words, delimiters, escaped delimiters, escaped backslashes, line breaks.",
        "a splitter that walks the raw characters, written apart from the library, gives the components; they have to be parsed so, and kept by print and parse.",
        "each adjacency of backslash runs and delimiters."),
"C03": ("a calendar value, its spelling, and the place (helper function, BDAY, ANNIVERSARY, REV, TZ, typed extension, list item); a third are corrupted so that they denote nothing, a third are edited by a character or are spellings of another type.",
        "the value itself (own calendar arithmetic in dates.rs); corrupted texts have to be errors; edited ones are read by an independent reader of the whole grammar (forms outside RFC 6350 that ISO 8601 has are not asserted).",
        "leap years, month ends, negative sub-hour offsets, lists of mixed spellings."),
"C04": ("cards dense with parameters of every kind on every property.", "the generating model.", "parameter combinations, order, quoting and escapes."),
"C05": ("property x VALUE x class of text.", "a table that gives the type, or error, or nothing (not asserted where the documentation is silent).", "confusable texts: URI-like text, digits that are dates."),
"C06": ("model cards built through the public types.", "equality after print and parse, and a strict RFC 6350 reader (reader.rs) of the printed text compared with the model.", "parameters and texts that need escapes or quotes in print; types the parser would not produce."),
"C07": ("texts in any spelling, with unusual lines from a table, and random edits (character, token, line, span operations).", "whatever is accepted has to print, parse equal, and print byte-identical.", "lenient inputs that are accepted but printed wrongly."),
"C08": ("built cards with one slot (value, component, item, parameter) replaced by a hostile text.", "byte-level rules (CRLF, 75 octets, graphemes, no control characters), own line splitter: all other lines and parameters equal those of a benign twin; the printed text is read back.", "injection through any slot; folds at multi-byte and combining sequences."),
"C09": ("accepted and rejected texts, folds inserted at any rate.", "result without the folds (strict, loose, iteration).", "folds inside names, parameters, quotes, escapes, keywords."),
"C10": ("accepted and rejected texts with line endings and blank lines changed.", "result of the CRLF form.", "mixtures, missing final line ending, blank lines in front and between."),
"C11": ("cards with all keywords in random case.", "the model.", "every keyword at every place in mixed case."),
"C12": ("structured texts, unusual lines, token soup, edited texts, conversions of every public type and helper, values up to 240,000 characters; probe0 (unoptimised build): one element of up to 256,000 bytes at 26 places.", "no panic, overflow, abort or hang; iteration ends within the number of lines; cards obtained are printed, cloned, compared, validated, searched for photos and dropped.", "the inputs no one wrote a test for; overflow checks and debug assertions are on."),
"C13": ("cards with up to four lines in error from 78 kinds, repeated single-valued properties, random and edited lines.", "parse_loose equals the model of the remaining lines; for random lines strict parsing of the card with that line alone decides whether it is in error.", "every kind of error at every place, several at once."),
"C14": ("sequences of one to six good or bad cards.", "all good cards in order, at least one error per run of bad ones, then None forever; try_from the first.", "error recovery histories."),
"C15": ("cards with repetitions of single- and multi-valued properties.", "strict error / first kept / all kept, by the model.", "repetition not adjacent, of other value, group and case, across cards."),
"C16": ("FN, MEMBER and KIND present or absent in any order and spelling.", "the two rules, on validate, parse, parse_loose, iteration, try_from.", "order of the lines, last card of several, loose mode."),
"C17": ("one illegal parameter among legal ones, or its legal twin.", "error / accepted with that value.", "each rule on each property, in any case and fold."),
"C18": ("one control character at any place of a property line.", "strict error; loose result equals the card without that property.", "every place and character; the tests have a handful."),
"C19": ("every cut of small texts, random cuts of large ones, one change of the structure lines.", "error in both modes.", "every byte position; glued, misplaced and repeated structure lines."),
"C20": ("near-miss values of each typed property; integers and floats in exact spellings.", "error strict and dropped loose; numbers equal bit for bit.", "borders of the number types, URI syntax, list items."),
"C21": ("every date/time kind in every place it is printed.", "own strict reader of RFC 6350 forms; equality with the stored value.", "offset signs, year borders, kinds that could be mistaken for others."),
"C22": ("model cards, built or parsed, to JSON text, value and list.", "equal data, equal card, equal print, and no field too many.", "untagged representations that lose the type for particular values."),
"C23": ("cards with a mark in every text; built, parsed, cloned, shortened in place, properties removed, replaced; dropped, or zeroized by hand before.", "the allocator: no block given back in a drop holds the mark (self-tested each run; memory is handed out zeroed so that old contents cannot be mistaken); after zeroize() the card equals Vcard::default() and its Debug form has no mark.", "every field and spare capacity."),
"C24": ("up to 19 builder calls.", "a model of the calls, then print and parse.", "sequences with repeats."),
"C25": ("photos of any bytes, to be found or skipped, or with invalid base64.", "own base64 encoder; exact list or error.", "order of parameters, case, folding, several photos."),
"C26": ("values of fifteen public types.", "display equals the standard spelling, parses to the same value, distinct values display differently.", "borders, all enumerations."),
"C27": ("two to six texts, good or bad, joined.", "results of the parts.", "state leaking from one card to the next."),
"C28": ("up to 15 lines of any kind or of few kinds, near misses of dates among them, in three orders.", "acceptance, data and printed line of each line alone.", "state leaking from one property to the next."),
"C29": ("texts without, with well-formed, with re-cased and with malformed media types and languages.", "five builds in separate processes have to agree.", "code behind feature switches on all other input."),
"C30": ("values of every convertible type.", "the model of what was given; print and parse of a card that holds the property.", "conversions that no test calls."),
"C31": ("a card and the same card changed in one slot, number, date, parameter, group, item, order or property, or not at all.", "equality of the models.", "each field's part in equality."),
"C32": ("a generated piece repeated to 24,000 and to 192,000 bytes in 13 shapes, in eight operations.", "ratio of thread CPU times (linear gives 8, quadratic 64); a violation needs more than 24 and more than 20 ms in the least of several runs.", "quadratic steps that short texts cannot show."),
"C33": ("one fault of 25 kinds with generated names and words, alone or after good cards.", "the variant and text the fault calls for (no assertion for unknown property names: the library reports the token after them, which is poor but not documented otherwise).", "faults in any case, place and wording."),
"C34": ("two to five texts, well-formed or not; cards that differ in one value; cards and date texts under three clocks the harness sets (its own `clock_gettime` takes the place of the one in libc).", "the result of the first parse of each; repeated, owned, boxed, sliced, interleaved iterators, four threads; the model for the cards that differ in one value.", "hidden state, dependence on the clock or on neighbouring bytes."),
"C35": ("cards, properties, parameters and errors, and the byte at which the writer fails.", "an error and a prefix; the whole text otherwise.", "ignored results of write!, which strings never show."),
"C36": ("JSON of cards with one to four changes.", "no panic; fixed point; mandatory fields.", "JSON from other programs."),
}
import json, os
CAUGHT = json.load(open(os.path.join(os.path.dirname(__file__), 'caught.json')))
