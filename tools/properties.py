#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os

G = "rust-src/src/gridstore/"
STORE, BUILDER, FORMAT = G + "store.rs", G + "builder.rs", G + "gridstore_format.rs"
COMMON, COALESCE, STACK, SPATIAL, MOD = G + "common.rs", G + "coalesce.rs", G + "stackable.rs", G + "spatial.rs", G + "mod.rs"
P = []

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        }})

p("C01", "What is built into a store is what it gives back",
  "After any sequence of insert (replaces a key's rows), append and compact_append (add to them), a finished and reopened store returns for every key exactly the set of rows written, each once, with relevance 0.4, 0.6, 0.8 or 1.0 unchanged (any other becomes 1.0), the score's low four bits, the id's low 24 bits, and tile and source phrase hash unchanged. Rows that become equal are returned once. Keys never written return nothing.",
  ["inputs", "histories"], "every sequence of builder calls over every key (32-bit phrase id, 128-bit language set) and every entry value, with or without prefix boundaries",
  "The tests build a few stores with a handful of small values; encoding widths, key packing and merging depend on all values and histories.",
  [BUILDER, STORE, FORMAT, COMMON],
  [("insert, append, compact_append, copy_entries, get_encoded_value", BUILDER), ("get, decode_value", STORE), ("GridKey::write_to, relev_float_to_int", COMMON)],
  [("GridStoreBuilder::data", "rows by key, before encoding", BUILDER)], ["GridStore::get", "GridStore::iter"])

p("C02", "A key's rows come back best first",
  "Every reading of one key's rows (looking the key up, or iterating over the whole store) yields them in descending order of relevance, then score, then tile in z-order, then feature id, then source phrase hash.",
  ["inputs", "histories"], "every store content and every order in which it was written",
  "Tests look at a few hand-written lists; the order comes from nested groups whose ties and boundaries only varied content exercises.",
  [BUILDER, STORE, FORMAT],
  [("get_encoded_value (nested sorts)", BUILDER), ("decode_value (nested iteration)", STORE)], (), ["GridStore::get", "GridStore::iter"])

p("C03", "Keys are listed completely, once each and in order",
  "Listing a store's keys, or iterating over keys with rows, yields every key written exactly once, with its exact phrase id and 128-bit language set and in ascending order of phrase id, and nothing else; prefix boundaries given while building do not show up as keys. The boundaries recorded in the store are those given when building.",
  ["inputs", "histories"], "every set of keys and every ascending list of boundaries",
  "Tests list one or two stores with small language sets; key width varies with the language set and bins share the key space.",
  [STORE, BUILDER, COMMON],
  [("keys, iter", STORE), ("GridKey::write_to", COMMON), ("load_bin_boundaries, finish", BUILDER)], (), ["GridStore::keys", "GridStore::iter", "GridStore::bin_boundaries"])

p("C04", "Matching returns exactly the stored rows asked for",
  "A streamed match for a phrase or a half-open range of phrases yields each row stored under each key whose phrase is in it exactly once, unless its tile lies outside the bounding box given (whose four edges are included); the languages asked for never exclude a row.",
  ["inputs", "configurations"], "every store without prefix boundaries, phrase or range, bounding box, proximity point and cap no smaller than the number of stored records in range",
  "Tests run a few fixed boxes and ranges; box pruning is a recursive z-order search with many boundary cases.",
  [STORE, SPATIAL, COMMON],
  [("streaming_get_matching", STORE), ("bbox_filter, bbox_proximity_filter, bbox_range, bbox_binary_search", SPATIAL), ("MatchKey::write_start_to, matches_key", COMMON)],
  (), ["GridStore::streaming_get_matching"])

p("C05", "Matched rows are annotated correctly",
  "Each matched row says whether its key's languages share one with those asked for (an unspecified, i.e. full, set matches all), its tile distance to the proximity point (0 without one), and a scoredist computed from distance, score, zoom and the store's radius (the bare score without a point). Its relevance is the stored one, times 0.96 unless the language matches or a proximity point lies within the radius.",
  ["inputs", "configurations"], "every row, key, language set, proximity point, zoom from 0 to 16 and radius",
  "Tests check a few distances and language sets at fixed zooms and radii.",
  [STORE, SPATIAL, COMMON],
  [("streaming_get_matching, MatchesLanguage", STORE), ("scoredist, tile_dist, proximity_radius", SPATIAL), ("MatchKey::matches_language", COMMON)], (), ["GridStore::streaming_get_matching"])

p("C06", "Without a proximity point the best matches come first",
  "Without a proximity point a streamed match is in non-increasing order of relevance (after any reduction), then score, then whether the language matches. A match that is capped at k yields at least the first k rows of the uncapped one, up to rows that rank alike.",
  ["inputs", "configurations"], "every store, phrase or range, languages, bounding box and cap",
  "Order depends on a priority queue over many records whose group boundaries and ties random content reaches and the tests' few records do not.",
  [STORE],
  [("streaming_get_matching (queue and chunking)", STORE), ("QueueElement ordering", STORE)], (), ["GridStore::streaming_get_matching"])

p("C07", "Prefix boundaries never change what a match returns",
  "For any ascending list of prefix boundaries, a store built with them and one built without hold the same answers: every phrase or range match, whether or not its ends fall on boundaries, yields the same set of distinct annotated rows. Looking keys up and listing them is unaffected too.",
  ["inputs", "configurations"], "every content, every ascending list of boundaries and every phrase or range",
  "The tests bin one store at a few boundaries; correctness needs every placement of keys around boundaries, including the ends of the id space.",
  [BUILDER, STORE, COMMON],
  [("load_bin_boundaries, finish (binning)", BUILDER), ("streaming_get_matching (choice of key type)", STORE), ("MatchKey::write_start_to", COMMON)],
  [("bin_boundaries", "phrase ids at which bins start", BUILDER)], ["GridStore::streaming_get_matching"])

p("C08", "Renumbering moves every phrase's rows to its new id",
  "Renumbering a store under construction with a mapping of phrase ids leaves under each new id and language set exactly the rows that were under the old id and the same language set, whatever the mapping's order. It reports an error, rather than losing rows, if a phrase has no entry in the mapping or if two keys would fall on the same id and language set.",
  ["inputs", "histories"], "every content and every mapping (permutations, sparse, colliding, short)",
  "One test renumbers a few keys with one permutation.",
  [BUILDER], [("renumber", BUILDER)], (), ["GridStore::get after GridStoreBuilder::renumber and finish"])

p("C09", "With a proximity point a record's rows come nearest first",
  "When a single stored record is matched with a proximity point, its relevances come in descending order, and among the rows sharing relevance and score the tiles come in order of non-decreasing distance between z-order code and the point's.",
  ["inputs"], "every record, point and bounding box",
  "The tests walk a few short lists; the merge of two directions from the point has edges at every position of the point relative to the list and box.",
  [SPATIAL, STORE], [("proximity, bbox_proximity_filter", SPATIAL), ("streaming_get_matching", STORE)], (), ["GridStore::streaming_get_matching"])

p("C10", "Options move between zoom levels without losing ground",
  "Adjusting match options from any zoom to any other (0 to 16) sets the zoom asked for and keeps what is absent absent. Zooming out maps the proximity point and the corners of the bounding box to the tiles containing them; zooming in maps the box to exactly the tiles covering the same area, and the point to the upper left of the four tiles in the middle of its tile.",
  ["inputs"], "every point, box and pair of zooms from 0 to 16",
  "Tests adjust a couple of values between a few zooms; widths and shifts matter most at the extremes.",
  [COMMON, COALESCE], [("MatchOpts::adjust_to_zoom", COMMON)], (), ["MatchOpts::adjust_to_zoom"])

p("C11", "Limiting a search to nearby keeps exactly the box around the point",
  "Options limited to nearby have as bounding box the square of tiles within 25 miles' worth of tiles (rounded up at the options' zoom) of the proximity point, clipped to the range of tile numbers and to the bounding box already given. With nothing in common the box matches no tile; without a proximity point the options are unchanged.",
  ["inputs"], "every point, box and zoom from 0 to 16",
  "Tests check a few points away from the edges.",
  [COMMON], [("MatchOpts::with_nearby_only, proximity bbox", COMMON)], (), ["MatchOpts::with_nearby_only", "stack_and_coalesce with nearby_only keys"])

p("C12", "The record format reads back what was written",
  "Any record of relevance-score groups, coordinates and feature id lists written with the storage format's writer reads back as the same lists, element for element and with the same lengths, by position or by iteration, through borrowed and owned readers, wherever in the buffer its parts lie and however large they are. Parts may be shared, empty, or far from what refers to them.",
  ["inputs"], "every record and every layout of its parts up to what offsets can address",
  "One test writes one small record; pointer and length widths change with distance and size.",
  [FORMAT], [("Writer, Reader, FixedVec, UniformVec, VarVec encodings", FORMAT)], (), ["gridstore_format Reader and read_*_raw"], "verif_hooks re-exports the (private) format module under cfg(carmen_verif)")

p("C13", "Every context returned is made of real, compatible matches",
  "Every entry of every context that coalesce or stack_and_coalesce returns is a row that one of its subqueries (of the entry's index, mask and, for stacks, key id) matches under the options, with correct annotations, its relevance times the subquery's weight and the right temporary id. The entries of one context cover disjoint parts of the query, lie on tiles containing each other, and in stack_and_coalesce are of descending types and of indexes neither of which is declared unable to overlap the other; the context's mask is their union. Its relevance is the sum of theirs, less 0.01 only where the order of the query is not followed or an entry stands alone unstacked.",
  ["inputs", "configurations"], "every set of stores, subqueries and options",
  "The tests coalesce fixed small sets of entries; soundness is over all combinations of indexes, zooms, masks and rows.",
  [COALESCE, STACK, STORE], [("coalesce, coalesce_single, coalesce_multi", COALESCE), ("tree_coalesce, stack_and_coalesce", COALESCE)], (), ["coalesce", "stack_and_coalesce"])

p("C14", "Coalesce answers are ranked, bounded and free of repeats",
  "Contexts come in descending order of relevance, then of the first entry's scoredist, then in ascending order of its index, then in descending order of its tile's x and y and its feature's id; and they compare that way. coalesce returns at most 40, no two led by the same feature of the same index, and none 0.25 or more below the best in relevance; stack_and_coalesce returns at most 800.",
  ["inputs", "configurations"], "every set of stores, subqueries and options",
  "Tests have a handful of results, too few to reach any bound, and few ties.",
  [COALESCE], [("coalesce, coalesce_multi, tree_coalesce (sorting, deduplication and limits)", COALESCE)], (), ["coalesce", "stack_and_coalesce"])

p("C15", "A single subquery's best features are all found",
  "Coalescing one subquery over at most 80 stored records (of at most 100 000 rows) without a proximity point returns exactly the 40 best features (by their best row's relevance and then score) that are less than 0.25 below the best, each once and as its best row. With a proximity point and at most 40 features it returns every feature whose best row is less than 0.25 below the best, except that rows which a 4% reduction would put beyond the cut may be left out.",
  ["inputs", "configurations"], "every store, match key, weight and options within the stated sizes, through coalesce and stack_and_coalesce",
  "Tests use a few features; early stopping, chunking and deduplication only matter with many.",
  [COALESCE, STORE], [("coalesce_single, tree_coalesce single branch", COALESCE)], (), ["coalesce", "stack_and_coalesce"])

p("C16", "No valid combination of matches is missed",
  "stack_and_coalesce returns every valid combination of matches of stackable subqueries (of fewer than 2000 complete stacks, of few enough prefixes that the limits of C25 are not met, and of at most 100 000 rows under each match key), each once with its right relevance, when each step has at most 40 results and there are at most 800 in all, and otherwise the best of them by relevance and scoredist (when 800 are exceeded, scoredist need not decide among those whose relevance ties with the last); only results at or below three quarters of the best that end in a single-word prefix of a high-zoom index (14 or above) may be left out. coalesce of two subqueries returns the best context of every feature within reach of the best. coalesce of several subqueries covering different parts of the query never misses a combination of all of them that is best by more than 0.01.",
  ["inputs", "configurations"], "every small set of stores, subqueries and options (answers compared with brute force)",
  "The tests hold fixed scenarios; completeness is over all combinations, orders and zooms.",
  [COALESCE, STACK], [("tree_coalesce", COALESCE), ("coalesce_multi", COALESCE), ("stackable", STACK)], (), ["coalesce", "stack_and_coalesce"])

p("C17", "Stacking enumerates exactly the valid stacks",
  "The tree of stacks contains every sequence of subqueries of strictly ascending types (ordered by zoom and index) in which no two cover the same part of the query or are of indexes that cannot overlap (as either of them declares), exactly once, and nothing else, as long as there are no more than 2000 complete stacks; each node states the greatest weight reachable at or below it. Beyond that every complete stack heavier than the 2000th heaviest is still there, and no more than 2000 are kept besides the lightest.",
  ["inputs", "configurations"], "every list of subqueries with any masks, weights, types, zooms and overlap sets",
  "The tests stack up to a dozen subqueries in fixed arrangements.",
  [STACK], [("stackable, binned stack building", STACK), ("ConstrainedPriorityQueue", COMMON)], (), ["stackable"])

p("C18", "Collapsing merges equal subqueries and loses no key",
  "Collapsing a list of subqueries yields one for each distinct combination of index, mask and weight, carrying the match keys of all its members and otherwise unchanged. Nothing that differs in any of the three is merged and no match key is lost, repeated or moved.",
  ["inputs"], "every list of subqueries",
  "One test collapses one list.",
  [STACK, COALESCE], [("collapse_phrasematches", COALESCE)], (), ["collapse_phrasematches", "stack_and_coalesce"])

p("C19", "The same question always gets the same answer",
  "Asking the same question of the same stores gives an identical answer, including order, whatever the number of worker threads, however slowly any read is served, and however many other questions are asked of the same stores at the same time.",
  ["schedules", "inputs"], "every set of stores, question, thread pool size, interleaving and delay",
  "Tests ask once, on one pool, and compare selected fields.",
  [COALESCE, STORE], [("tree_coalesce (parallel steps joined in order)", COALESCE), ("GridStore shared behind Arc", STORE)], (), ["coalesce", "stack_and_coalesce"])

p("C20", "Iterators stay valid whatever becomes of their store",
  "Rows read through any iterator a store hands out are the stored ones even if the store is dropped, iterators are interleaved, moved or abandoned half way. No use of the public interface reads or writes memory it should not.",
  ["histories", "schedules", "inputs"], "every order of opening, reading, moving and dropping stores and iterators",
  "Tests keep the store alive and read iterators straight to the end; undefined behaviour can pass unnoticed.",
  [STORE, FORMAT, SPATIAL], [("decode_value (owning the bytes it borrows), SomeIter lifetimes", STORE), ("owned readers", FORMAT)], (), ["GridStore::get", "GridStore::iter", "GridStore::streaming_get_matching"])

p("C21", "Storage failures are reported, not swallowed",
  "If opening, writing or reading the underlying storage fails, the operation that needed it returns an error: finishing a build never reports success unless everything was stored, and opening a store that is missing, empty or damaged does not present it as valid. No such failure makes the library panic or hang.",
  ["fault_sequences", "crash_points"], "every single failing write of a build, failing open or look-up, and missing or damaged store",
  "Tests never inject a failure.",
  [BUILDER, STORE], [("finish, renumber", BUILDER), ("new, new_with_options, get", STORE)], (), ["GridStoreBuilder::finish", "GridStore::new", "GridStore::get"])

p("C22", "The Node bindings pass values through unchanged",
  "What JavaScript passes to the bindings reaches the library unchanged and what the library returns (rows, keys, coalesced contexts, phrase matches) reaches JavaScript unchanged. An argument of the wrong type or shape, or a number the type it is taken for cannot hold (fractional, negative, too large, NaN), raises an exception and changes nothing in what is being built; so do errors of the library. None of them ends the process. Each callback is called exactly once, with an error or with the answer to its own question, however many are asked at once.",
  ["inputs", "histories", "schedules"], "every argument list, and every sequence of calls",
  "The bindings have only a few example calls, and hardly any with wrong values.",
  ["native/src/gridstore.rs", "native/src/fuzzy_phrase.rs", "index.js"],
  [("argument conversion", "native/src/gridstore.rs"), ("deserialize_phrasesubq, coalesce tasks", "native/src/gridstore.rs"), ("JsFuzzyPhraseSet", "native/src/fuzzy_phrase.rs"), ("exports", "index.js")],
  (), ["the exports of index.js"])

p("C23", "The bounded queue keeps the greatest elements",
  "After any sequence of pushes and pops a queue of capacity n holds the greatest n (or fewer) of what was pushed and not popped, reports its least and greatest correctly, pops the greatest, and lists its content in descending order. A push says whether the element was kept.",
  ["histories"], "every sequence of operations and every capacity",
  "One test pushes a few numbers.",
  [COMMON], [("ConstrainedPriorityQueue", COMMON)], (), ["ConstrainedPriorityQueue"])

p("C24", "Stores, questions and answers can be written out and read back",
  "A store dumped to JSON and loaded again has the same keys, rows and prefix boundaries and gives the same answers, also when what was dumped is compressed and fetched as a download; dumping what was loaded gives the same dump. Recorded questions (subqueries and options) are read back by prepare_phrasematches as they were recorded, against the stores of those names, sharing a store among the subqueries that shared it, so that they have the same answers. Answers written as JSON are read back unchanged.",
  ["inputs"], "every store, question and answer",
  "The benchmarks rely on it; one test round-trips one small store.",
  ["test_utils/src/lib.rs", "test_utils/src/dump.rs", "test_utils/src/load.rs", COMMON, STORE],
  [("ensure_store, prepare_phrasematches", "test_utils/src/lib.rs"), ("dump_db_to_json", "test_utils/src/dump.rs"), ("load_db_from_json", "test_utils/src/load.rs"), ("Serialize, Deserialize", COMMON), ("Serialize, Deserialize for GridStore", STORE)],
  (), ["test_utils", "serde of PhrasematchSubquery, MatchOpts, CoalesceContext"])

p("C25", "Costly low-information lookups are limited",
  "However many subqueries stack_and_coalesce is given, it looks up at most 8 one-letter prefixes, 40 single-word prefixes, 8 single-word prefixes of high-zoom (14 or above) indexes not limited to nearby, 40 prefixes and 600 keys in all of such indexes. No key is looked up more than twice in one question.",
  ["inputs", "schedules"], "every list of subqueries and match keys",
  "Tests never pass enough subqueries to reach a limit.",
  [COALESCE], [("tree_coalesce (KeyFetchStep, counters)", COALESCE)], (), ["reads of the underlying storage"])

p("C26", "How a store was built leaves no trace",
  "Stores given the same rows hold the same content and give the same answers regardless of the order in which rows were given, how they were split over calls, which of the calls were used to give them, and whether some were given twice.",
  ["histories"], "every content and every way to split and order it",
  "Tests build each store in one way.",
  [BUILDER], [("insert, append, compact_append, copy_entries", BUILDER), ("get_encoded_value (sorting and deduplication)", BUILDER)], (), ["GridStore::iter", "GridStore::streaming_get_matching"])

p("C27", "What was opened is released",
  "Once the stores, iterators, builders and answers that were asked for are dropped, the memory and the databases they held are released: doing the same work (building, opening, reading, asking questions) any number of times leaves no more memory in use and no more databases open than doing it a few times, also when the work fails or is abandoned half way.",
  ["histories", "fault_sequences"], "every repetition of every piece of work, whole, failing or abandoned",
  "No test looks at what is left behind.",
  [STORE, BUILDER, COALESCE], [("decode_value, SomeIter", STORE), ("finish", BUILDER), ("tree_coalesce (nodes, states, shared data)", COALESCE)], (), ["GridStore", "GridStoreBuilder", "coalesce", "stack_and_coalesce"])

p("C28", "Answers depend on nothing but what is asked",
  "What a question doesn't ask for has no influence on its answer: adding rows to the stores, or removing rows from them, that are of phrases no match key asks for or lie outside the question's bounding box leaves the answer exactly as it was. The same subqueries in another order, or match keys spread over several subqueries that are alike otherwise, give the same contexts (as long as no more are found than are returned).",
  ["inputs"], "every question, and everything else the stores may hold",
  "Tests use stores that hold hardly anything but what they ask for.",
  [COALESCE, STORE, STACK, "rust-src/src/gridstore/spatial.rs"], [("streaming_get_matching", STORE), ("tree_coalesce, coalesce", COALESCE), ("bbox_filter, bbox_proximity_filter", "rust-src/src/gridstore/spatial.rs")], (), ["coalesce", "stack_and_coalesce"])

p("C29", "Stores on disk keep their form",
  "The library reads the stores that earlier versions wrote, with or without prefix boundaries, and writes stores that earlier versions can read: the keys (kind, phrase number, languages), the records under them (levels, tiles and features, in the order readers rely on), the prefix bins and the boundaries have the byte form they have always had.",
  ["inputs", "histories"], "every content and boundaries, written by one version and read by another",
  "Tests read only what the same build has just written, so a change made to writer and reader alike goes unnoticed.",
  [FORMAT, BUILDER, STORE, COMMON], [("Writer, Reader, the Encodable traits", FORMAT), ("finish, get_encoded_value", BUILDER), ("GridKey::write_to", COMMON), ("new_with_options", STORE)], (), ["stores on disk"])

p("C30", "Storage keys match what they stand for",
  "Written storage keys of different kind, phrase or languages differ, lie in the order of kind and phrase number, and fit MAX_KEY_LENGTH. A match key matches exactly the written keys of its kind whose phrase is the one, or in the half-open range, it asks for; where a look-up starts lies before all of those and after everything smaller; languages match if the sets share one or the written one stands for all.",
  ["inputs"], "every pair of storage key and match key",
  "Tests try a few phrase numbers and language sets.",
  [COMMON], [("GridKey::write_to, MatchKey::write_start_to, matches_key, matches_language", COMMON)], (), ["GridKey", "MatchKey"])

p("C31", "Grouping hands on every element once, in order",
  "somewhat_eager_groupby yields the elements it is given once each and in order, in groups of equal keys as long as can be, takes no more than one element beyond the group it yields, ends when they do, and keeps none when it is dropped half way. The four relevance levels survive being stored as a number.",
  ["inputs", "histories"], "every sequence of elements and keys, read to any point",
  "No test is about it.",
  [COMMON], [("somewhat_eager_groupby, relev_float_to_int, relev_int_to_float", COMMON)], (), ["somewhat_eager_groupby"])

p("C32", "What Node lets go of is released",
  "Once the builders, stores, iterators and phrase sets made through the Node bindings are collected and the questions asked through them are answered, the databases and the native memory they held are released: making the same calls any number of times leaves no database open and no more native memory in use than making them a few times, also when calls throw, questions are refused and iterators are abandoned half way.",
  ["histories"], "every sequence of calls, right and wrong, made over and over",
  "No test looks at what is left behind.",
  ["native/src/gridstore.rs", "native/src/fuzzy_phrase.rs", "index.js"], [("JsGridStore, JsGridStoreBuilder, JsGridKeyStoreKeyIterator, js_coalesce, js_stack_and_coalesce, deserialize_phrasesubq", "native/src/gridstore.rs"), ("JsFuzzyPhraseSet, JsFuzzyPhraseSetBuilder", "native/src/fuzzy_phrase.rs")], (), ["GridStore", "GridStoreBuilder", "stackAndCoalesce", "coalesce", "stackable", "FuzzyPhraseSet"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
