#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {})}})
R = "repos_repo.go"
ST = [("index table", "index name -> index", R), ("alias table", "alias -> ordered list of index names", R)]

p("C01", "Every repository operation leaves the repository usable",
  "Whatever the outcome of a repository operation (success, unknown index, unknown alias, nothing to do), when it returns it no longer holds any of the repository's locks, and it never releases a lock it does not hold. So the next operation, from any goroutine, is never blocked by one that has already returned.",
  ["inputs", "histories"], "every public operation, every argument, every path to every return",
  "Tests call each operation on one or two outcomes and never issue a writer after a failed UnAlias; a leaked read lock is invisible until a writer comes.",
  [R], [("lock/unlock pairs and defers in every method", R)], ST)
p("C02", "Concurrent repository operations never deadlock",
  "No set of concurrently running repository operations can block one another forever. Locks are always taken in one global order, no operation re-acquires a lock it already holds, and no operation waits for goroutines that need a lock it holds.",
  ["schedules"], "every interleaving of any number of public operations",
  "The tests are single-threaded; a lock-order inversion needs two operations to interleave between two acquisitions.",
  [R], [("index lock is taken before alias lock", R), ("fan-out goroutines take no repository lock", R)], ST)
p("C03", "Concurrent repository operations are free of data races",
  "Any mix of repository operations may run concurrently on one repository without a data race on the index table, the alias table, the alias target lists or the contents of the indexes. Reads of them may proceed in parallel only with other reads.",
  ["schedules"], "every pair of conflicting accesses in every pair of public operations, under every interleaving",
  "The race detector only sees accesses the tests run concurrently, and the tests start no concurrent operations.",
  [R, "index_memory_index.go"], [("read/write locks around the two tables and the indexes", R)], ST)
p("C04", "Repository operations are atomic",
  "Every repository operation that changes state decides on, and performs, its change as one indivisible step with respect to all other operations. In particular no acknowledged document is lost when several goroutines put the first documents of one index, and of several concurrent drops or renames of one index exactly one reports success.",
  ["schedules"], "every interleaving of any number of public operations",
  "A lost update needs another operation to run between a check and the act that relies on it; single-threaded tests cannot place one there.",
  [R], [("check and update under one lock hold", R)], ST)
p("C05", "Fan-out work is finished when an operation returns",
  "When a put or a search that reaches several indexes returns, all the work it started for them has completed: each targeted index was waited for exactly once, no background goroutine is left running or blocked, and the operation itself never waits forever or fails because it mis-counted them.",
  ["schedules", "inputs"], "every alias with any number of targets and every order in which the per-index work completes",
  "Tests use one alias with two targets; a goroutine that outlives the call usually finishes before a test looks.",
  [R], [("wait groups around the per-index goroutines", R)], ST)
p("C06", "A panicking analyzer or engine does not wedge the repository",
  "If a user-supplied tokenizer, search engine or index builder panics in the caller's goroutine during a put or a search and the caller recovers, every lock of the repository is released nevertheless.",
  ["fault_sequences"], "every call-back into user-supplied code made while a lock is held",
  "No test uses a panicking component.",
  [R], [("deferred unlocks around call-backs", R)], ST)
p("C07", "Aliases always resolve to existing indexes, each once",
  "In every reachable state each alias has at least one target, all its targets are existing indexes, and none of them is listed twice. Every operation preserves this.",
  ["histories"], "every sequence of put, alias, unalias, rename and drop, with any names",
  "Tests run short fixed sequences; unaliasing the last target, renaming onto another target or dropping one of several targets are never combined with a later use of the alias.",
  [R], [("existence check in Alias, pruning in UnAlias and Drop, rewriting in Rename", R)], ST)
p("C08", "A put reaches exactly the indexes its name resolves to",
  "Putting a document under the name of an index adds it to that index only; otherwise, under the name of an alias, it adds it exactly once to every target of the alias and to no other index; otherwise it creates an index of that name holding just the document. No other index, name or alias changes.",
  ["inputs", "histories"], "every repository state, name and document, any number of alias targets",
  "Tests never read back what a put through an alias stored, nor check that other indexes are untouched.",
  [R], [("name resolution and fan-out in Put", R)], ST)
p("C09", "A search covers exactly the indexes its name resolves to",
  "Searching the name of an index returns that index's results; otherwise, under the name of an alias, it returns the results of every target exactly once, target by target in the alias's order, and none from any other index; otherwise it returns an error and no results. Names resolve for searches exactly as they do for puts, and a successful search returns a readable result stream and no error.",
  ["inputs", "histories"], "every repository state, name, query and engine, any number of alias targets",
  "One test searches one two-target alias and only looks for two documents; precedence between an index and an alias of the same name is never exercised.",
  [R], [("name resolution and merge in Search", R)], ST)
p("C10", "Drop removes one index and every reference to it",
  "Dropping an existing index reports success, and afterwards the index is gone, it is no target of any alias, aliases left without targets are gone, and every other index, alias and target (in its order) is unchanged. Dropping a name that is not an index reports failure and changes nothing.",
  ["inputs", "histories"], "every repository state and name",
  "Tests drop an index with one single-target alias.",
  [R], [("pruning loop and deletes in Drop", R)], ST)
p("C11", "Rename moves the index and keeps its documents and aliases",
  "Renaming an existing index reports success, and afterwards the very same index with all its documents is found under the new name and, unless both names are equal, no longer under the old one; every alias that pointed to the old name points to the new one, in the same position, and nothing else changes. Renaming a name that is not an index reports failure and changes nothing.",
  ["inputs", "histories"], "every repository state and pair of names, equal or not, new name taken or not",
  "Tests rename once to a fresh name and never read the documents back.",
  [R], [("swap and alias rewriting in Rename", R)], ST)
p("C12", "Alias and unalias have exactly their documented effect",
  "Alias appends the index to the alias's targets, creating the alias if needed, and reports success exactly when the index exists and was not yet a target; otherwise nothing changes. UnAlias without an index removes the whole alias and reports whether it existed; with an index it detaches just that target (removing an alias left empty), succeeds when both exist, and otherwise reports failure and changes nothing.",
  ["inputs", "histories"], "every repository state, alias name and index name",
  "Tests cover one alias with one target, and never unalias a single target.",
  [R], [("Alias and UnAlias", R)], ST)
p("C13", "Listings and lookups report exactly the current state",
  "The index listing contains every index name exactly once and nothing else, the alias listing contains every alias exactly once with exactly its targets in order and nothing else, and the two existence tests answer true exactly for existing names.",
  ["histories"], "every repository state with any number of indexes and aliases",
  "The listings have no test at all.",
  [R], [("List, ListAliases, Has, HasAlias", R)], ST)
p("C14", "Searching, listing and looking up never change anything",
  "Searches (with any of the provided engines), listings, existence tests, string rendering and the read accessors of indexes, documents, requests and results have no effect on the repository, the indexes, the documents or the analysis components. Only put, alias, unalias, rename and drop change state.",
  ["inputs", "histories"], "every read operation on every state",
  "One test compares two lengths before and after a search; a write to any other part of the state goes unseen.",
  [R, "index_memory_index.go", "search_hits_search.go", "search_linear_search.go", "search_noop_search.go"],
  [("read paths contain no write to shared state", R)], ST)
p("C15", "What callers receive is independent of the internal state",
  "No slice or map handed out to a caller (listings, alias targets, posting lists, search results, result streams, tokens) shares memory with the internal state of the repository, of an index or of an analysis component. So a caller may modify what it receives, and later operations never change it.",
  ["inputs", "histories"], "every public function and method that returns data",
  "No test writes to a returned value and looks again.",
  [R, "index_memory_index.go"], [("copies made in the accessors", "index_memory_index.go"), ("alias targets are copied", R)], ST)
p("C16", "Indexes and repositories do not share mutable state",
  "Every index created by an index builder and every repository starts empty and has its own documents, postings, tables and locks; nothing mutable is shared between two indexes, between two repositories, or through package-level state. So no operation on one of them affects another.",
  ["histories", "configurations"], "every number of indexes and repositories built from any builder or pipeline",
  "Tests create several indexes but never check one after changing another.",
  [R, "index_memory_index.go"], [("constructors allocate fresh state", "index_memory_index.go")])
p("C17", "Putting a document indexes it under exactly its tokens",
  "Putting a document into an index appends exactly one document at the next position, and that position becomes the last entry, exactly once, of the posting list of every token of its analyzed text, repeated or not; every other posting list and every earlier document stays as it was. Hence posting lists are strictly ascending and refer to existing documents only.",
  ["inputs", "histories"], "every index content, document and token sequence of any length, with any repetitions",
  "Tests look at result counts of small fixed corpora; the posting lists are never inspected.",
  ["index_memory_index.go"], [("Put", "index_memory_index.go"), ("Indexed, Document, Len", "index_memory_index.go")])
p("C18", "Linear search returns exactly the documents with all tokens",
  "For a non-empty query the linear engine returns each document that contains every query token exactly once and no other document, in insertion order, each with a hit count equal to the number of query tokens. An empty query, or a query with a token no document contains, yields no results.",
  ["inputs"], "every index content and every token sequence of any length, with any repetitions",
  "Tests query corpora of at most four documents with at most three tokens.",
  ["search_linear_search.go"], [("intersection of sorted posting lists", "search_linear_search.go")])
p("C19", "Hits search returns exactly the documents with all tokens",
  "For a non-empty query the hits engine returns each document that contains every query token exactly once and no other document, each with a hit count equal to the number of query tokens; documents put under one identifier are still separate documents. An empty query, or a query with a token no document contains, yields no results.",
  ["inputs"], "every index content (repeated document identifiers included) and every token sequence of any length, with any repetitions",
  "Tests query corpora of at most four documents with distinct identifiers.",
  ["search_hits_search.go"], [("per-document hit counting against a threshold", "search_hits_search.go")])
p("C20", "Hits search results are ordered by relevance, then identifier",
  "Results of the hits engine are sorted by hit count, highest first, and among equal counts by ascending document identifier. The comparison used is a consistent ordering of results for every pair of hit counts and identifiers.",
  ["inputs"], "every pair of results and every result set",
  "In the tests all results tie on hits and were put in identifier order, so any comparison, or no sort at all, passes.",
  ["search_result.go", "search_hits_search.go"], [("result comparison", "search_result.go"), ("sort of the results", "search_hits_search.go")])
p("C21", "Search results are deterministic",
  "The same query against the same state returns the same sequence of results every time, for every provided engine and also through an alias with several targets. Neither map iteration order, nor goroutine scheduling, nor clocks or randomness influence which results are returned or their order.",
  ["schedules", "inputs"], "every schedule of the fan-out goroutines, every map iteration order, every state and query",
  "Tests repeat a few single-index searches five to ten times on tiny result sets.",
  [R, "search_hits_search.go", "search_linear_search.go", "search_noop_search.go", "index_memory_index.go"],
  [("per-target result slots merged in order", R), ("index-order traversal", "search_hits_search.go")])
p("C22", "The no-op engines return nothing and everything",
  "For every index and every query, one no-op engine returns no results, and the other returns every document exactly once, in insertion order, with zero hits.",
  ["inputs"], "every index content and every query",
  "The tests only use one of them and never look at what it returned.",
  ["search_noop_search.go"], [("the two no-op engines", "search_noop_search.go")])
p("C23", "Documents and queries are analyzed the same way",
  "An index passes the searchable text of each document, and the text of each query, verbatim to one and the same analyzer, the one it was built with, and uses its tokens unmodified: all of a document's tokens become postings and all of a query's tokens, in order, reach the engine together with that very index.",
  ["inputs", "configurations"], "every analyzer, document and query",
  "Tests use one pipeline and lower-case ASCII queries, for which many asymmetries between the two sides are invisible.",
  ["index_memory_index.go", R], [("both sides call the index's analyzer", "index_memory_index.go")])
p("C24", "Documents come back verbatim",
  "A document returned by a search has exactly the identifier and content of the put request that stored it; what is searched is the request's separate searchable text, which is the content itself unless given explicitly. The request, document and result constructors and accessors carry every field through unchanged.",
  ["inputs"], "every identifier, content, searchable text and mime type",
  "Tests only compare identifiers, and always with searchable text equal to the content.",
  ["entities_request.go", "entities_doc.go", "index_memory_index.go", "search_result.go"],
  [("request and document constructors and accessors", "entities_request.go")])
p("C25", "The tokenizer keeps exactly the accepted characters",
  "The clean tokenizer splits its input exactly at the characters none of its predicates accepts, so tokens are the maximal runs of characters accepted by at least one of them. The alphanumeric tokenizer accepts exactly Unicode letters and numbers.",
  ["inputs", "configurations"], "every text and every set of predicates",
  "Tests tokenize a handful of Spanish phrases.",
  ["analyze_clean_tokenizer.go"], [("split predicate", "analyze_clean_tokenizer.go")])
p("C26", "Token filters transform each token exactly as documented",
  "The lower-casing and stemming filters yield exactly one output token per input token, in order, each the lower-cased, respectively stemmed, form of its input. The stop-word filter yields exactly the tokens that are not in its stop-word set, unchanged and in order.",
  ["inputs", "configurations"], "every token sequence of any length and every stop-word set",
  "No test calls a filter directly.",
  ["analyze_lowercase_filter.go", "analyze_stem_filter.go", "analyze_stopwords_filter.go"],
  [("the three filters", "analyze_lowercase_filter.go")])
p("C27", "A pipeline applies its tokenizer and then every filter in order",
  "A tokenization pipeline's output is the output of its last filter applied to the output of the one before it, and so on back to its tokenizer applied to the text: each filter runs exactly once, in the order given, on exactly what the previous stage produced.",
  ["inputs", "configurations"], "every tokenizer and every number of filters",
  "Tests use one fixed pipeline whose stages happen to commute on the test inputs.",
  ["analyze_compose.go"], [("pipeline fold", "analyze_compose.go")])
p("C28", "Analysis components are stateless and leave their input alone",
  "Tokenizers, filters and pipelines keep no state between calls, do not modify the token slices they are given and do not write to shared variables. So one analysis pipeline may serve any number of indexes and concurrent searches.",
  ["schedules", "inputs"], "every analysis component, every input, every interleaving",
  "Tests use each pipeline from one goroutine and do not look at a filter's input afterwards.",
  ["analyze_clean_tokenizer.go", "analyze_compose.go", "analyze_lowercase_filter.go", "analyze_stem_filter.go", "analyze_stopwords_filter.go"],
  [("filters build fresh slices", "analyze_lowercase_filter.go")])
p("C29", "Search results survive a JSON round trip",
  "The JSON form of a search result is one object with every exported field of the result and of its document under its documented key, and decoding reads each of these keys, in any order and among unknown ones, back into the same field. Encoder, decoder and the declared field names agree.",
  ["inputs"], "every search result",
  "No test encodes or decodes a result.",
  ["search_result_easyjson.go", "search_result.go", "entities_doc.go"], [("generated encoder and decoder", "search_result_easyjson.go")])
p("C30", "Stemming regions are the regions the algorithm defines",
  "For every word, R1 is the region after the first non-vowel following a vowel, R2 is the same within R1, and RV is the region given by the Spanish rule (after the next vowel if the second letter is a consonant, after the next consonant if the first two are vowels, after the third letter otherwise); a region that does not exist is empty. All three are suffixes of the word, cut at character boundaries.",
  ["inputs"], "every word of any length",
  "One test checks four words.",
  ["stemmer_spanish_snowball.go"], [("region scan", "stemmer_spanish_snowball.go")])
p("C31", "A put whose analysis panics leaves the index unchanged",
  "If the analyzer panics while a document is being put into an index, the index afterwards holds exactly the documents and postings it held before.",
  ["fault_sequences"], "every analyzer failure, every index content",
  "No test uses a panicking analyzer.",
  ["index_memory_index.go"], [("analysis happens before the first change", "index_memory_index.go")])
p("C32", "Public operations never crash on any input",
  "No public operation of the repository, of an index, of a provided engine, tokenizer or filter panics on its own account: no index out of range, nil dereference, write to a nil map or impossible slice, for any state reachable through the API and any arguments. (Asking an index for a document position it never reported is excluded.)",
  ["inputs", "histories"], "every public operation, reachable state and argument",
  "Boundary inputs (empty queries on empty indexes, aliases of many targets, one-letter words) are sampled a few times at most.",
  [R, "index_memory_index.go", "search_linear_search.go", "search_hits_search.go", "stemmer_spanish_snowball.go"],
  [("bounds implied by loops and guards", "search_linear_search.go")])
p("C33", "Spanish stemming conflates inflected forms correctly",
  "Words of one Spanish inflection family are stemmed to the same token and unrelated words to different ones, as the Snowball algorithm defines.",
  ["inputs"], "every Spanish word", "A few words occur in the tests.",
  ["analyze_stem_filter.go"], [("external Snowball library", "analyze_stem_filter.go")])
p("C34", "Search cost stays within the documented bounds",
  "A search by the hits engine takes O(T x D + R log R) time and O(R) space, one by the linear engine O(T x D + I) time, in the numbers of tokens, documents per token and results.",
  ["inputs"], "every index and query", "No test measures cost.",
  ["search_hits_search.go", "search_linear_search.go"], [("loop structure of the engines", "search_hits_search.go")])
p("C35", "JSON strings are escaped so that any content round-trips",
  "Every identifier and content, whatever characters it contains, is restored exactly by decoding its JSON form.",
  ["inputs"], "every string", "No test encodes a result.",
  ["search_result_easyjson.go"], [("string escaping in the external easyjson runtime", "search_result_easyjson.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
