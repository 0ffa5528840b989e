"""Writes properties.jsonl and MANIFEST.json.  Run it after a change here: /opt/venv/bin/python tools/properties.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['gb/' + f if not f.startswith(('src', 'python', 'eco', 'scripts')) else f for f in files],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                          'observe_at': observe, 'hook_needed': None},
              'technique': technique, 'note': note})


EDGE = 'hypergraph/edge.py'
SYM = 'hypergraph/symbol.py'
SQL = 'hypergraph/sql.py'
LITE = 'hypergraph/sqlite.py'
MYSQL = 'hypergraph/mysql.py'
HG = 'hypergraph/hypergraph.py'

WELL = ('edges of two or more elements, which are symbols (no white space or control characters, balanced parentheses, not numerals), '
        'integers, finite floats or edges')

prop('E01', 'Edge notation round-trips and is injective',
     'For every well-formed edge (two or more elements; each is a symbol without white space and with balanced parentheses, an integer, a '
     'finite float, or an edge), reading the text it is written as gives an equal edge with the same types of elements. Two edges that '
     'differ in structure, order, or type or value of an element are written differently.',
     ['inputs'], 'every well-formed edge, of any nesting, arity and content, and every pair of them; lists are read back as tuples',
     'The tests write and read about ten short edges of plain symbols; the guarantee is for every nesting, number and symbol character.',
     [EDGE], [('edge2str/str2edge', EDGE), ('parsed_token/split_edge_str', EDGE)], ['ed.edge2str', 'ed.str2edge'],
     'property-based testing: round trip and injectivity over generated edges', 'Random search over structured edges; strong on small shapes.')
prop('E02', 'The text of an edge splits into the texts of its elements',
     'Splitting the text of an edge gives exactly the texts of its elements, in order, with or without the outer parentheses. This holds '
     'for nested elements at any position and depth, and any amount of white space between elements does not change what is read.',
     ['inputs'], 'every text that a well-formed edge is written as, with and without outer parentheses, and any white space between elements',
     'The tests split six strings; none of them starts with a nested edge.',
     [EDGE], [('split_edge_str', EDGE)], ['ed.split_edge_str', 'ed.str2edge'],
     'property-based testing: generated texts against the elements they were made from', 'Random search; the oracle is the edge that the text was made from.')
prop('E03', 'Tokens are read as numbers exactly when they are numerals',
     'A token is read as an integer if it is a decimal integer numeral, as a float if it is a decimal numeral with a point or an exponent '
     'as floats are written, and as a symbol with the same text otherwise. Every integer and finite float is read back from its '
     'text with the same value and type.',
     ['inputs'], 'every token without white space or parentheses, and every integer and finite float',
     'The tests read four numbers; signs, points, exponents, unicode digits and their combinations are unbounded.',
     [EDGE], [('parsed_token', EDGE)], ['ed.parsed_token', 'ed.str2edge', 'ed.edge2str'],
     'property-based and grammar-directed testing against an independent recogniser', 'Random search with number-like grammars plus listed corner cases.')
prop('S01', 'Symbols are taken apart as they are built',
     'A symbol built from parts is a concept whose parts are those parts, whose root is the first part and whose namespace is the rest; a '
     'symbol without slashes is its own root. URLs and numbers are told apart from concepts and are never split, and edges have their '
     'own type.', ['inputs'], 'every list of non-empty parts, every symbol, URL, number and edge',
     'The tests look at about ten symbols.', [SYM], [('symbol_type/parts/root/nspace/build', SYM)],
     ['sym.symbol_type', 'sym.parts', 'sym.root', 'sym.nspace', 'sym.build'], 'property-based testing: build/parts round trip and reference',
     'Random search over parts and symbols.')
prop('S02', 'Text becomes a valid symbol, and symbols become readable text',
     'str2symbol gives, for any text, a lower case symbol without white space, slashes or parentheses, so that it is one token of the edge '
     'notation and a valid root, and applying it again changes nothing. symbol2str gives the root with underscores as spaces, so lower case '
     'words separated by single spaces are given back unchanged.',
     ['inputs'], 'every non-empty text without control characters other than white space, and every symbol',
     'The tests convert two texts.', [SYM], [('str2symbol/symbol2str', SYM)], ['sym.str2symbol', 'sym.symbol2str'],
     'property-based testing: validity, idempotence, round trip', 'Random unicode text.')
prop('S03', 'Text hashes are a fixed function; new meanings keep their root',
     'hashed() is a deterministic function of the text alone: the same known polynomial hash, in hexadecimal, in every process and session. '
     'A new meaning of a root has that root, and new meanings given one after the other are different.',
     ['inputs', 'histories'], 'every text; every root and sequence of new meanings',
     'The tests have one hash value.', [SYM], [('hashed/hash_str/new_meaning/random_hash', SYM)],
     ['sym.hashed', 'sym.new_meaning'], 'property-based testing against a big-integer reference', 'Random text; hashes of symbols that were stored must not change.')
prop('S04', 'Negation is an involution that changes the relationship only',
     'Negating an edge or a symbol twice gives it back, once gives a different one, and whether it is negative alternates. Negation changes '
     'the relationship (first element) only; the other elements stay as they are.',
     ['inputs'], 'every symbol and every edge whose relationship is a symbol with at most one negation mark',
     'The tests negate three values.', [SYM, EDGE], [('negative/negate', SYM), ('negative/negate', EDGE)],
     ['sym.negate', 'sym.negative', 'ed.negate', 'ed.negative'], 'property-based testing: involution and frame condition', 'Random search.')

DOM = 'every history of operations over ' + WELL
TESTS_HG = 'The tests run fixed sequences of a few operations on a handful of edges.'
prop('H01', 'Membership follows the set of edges added and not removed',
     'After any history of add, remove, batches, remove_by_pattern and destroy, exists(edge) is true exactly for the edges that were added '
     'after they were last removed; adding a stored edge or removing an absent one changes nothing. Edges that differ in any way (order, arity, nesting, number types) are '
     'different members.', ['histories', 'inputs'], DOM, TESTS_HG, [HG, SQL, LITE], [('exists/add/remove', SQL), ('add_raw/remove_raw', SQL)],
     ['HyperGraph.exists'], 'stateful model-based testing against a set', 'Random histories with small related edge pools; SQLite backend.',
     [('vertices', 'text, degree and timestamp of each vertex', SQL), ('edgeperms', 'index of permutations of edges', SQL)])
prop('H02', 'Pattern queries return exactly the matching stored edges',
     'pattern2edges(p) returns exactly the stored edges with as many elements as p that have p\'s element at each position that is not a '
     'wildcard; no edge is missing, additional or altered. This holds for every set and position of wildcards, including none and all.',
     ['histories', 'inputs'], DOM + '; every pattern over atoms, edges and wildcards', TESTS_HG + ' Six patterns are asked.', [HG, SQL, EDGE],
     [('pattern2edges', SQL), ('edge_matches_pattern', EDGE), ('write_edge_permutations', SQL)], ['HyperGraph.pattern2edges'],
     'stateful model-based testing against a scan', 'For one edge of each case all subsets of wildcards are asked.')
prop('H03', 'The star of an entity is exactly the edges that contain it',
     'star(x) returns exactly the stored edges that have x as a direct element, at any position, for x atomic or an edge. Entities whose text is a '
     'prefix or a part of another one do not attract its edges.', ['histories', 'inputs'], DOM + '; every entity', TESTS_HG, [HG, SQL],
     [('star', SQL), ('str_range/edges_with_edge_str', SQL)], ['HyperGraph.star'], 'stateful model-based testing against a scan',
     'Symbol pools have prefixes, neighbours in sort order and SQL special characters.')
prop('H04', 'Degree counts occurrences in stored edges',
     'After any history, degree(x) is the number of occurrences of x as a direct element over the stored edges, for x atomic or an edge; '
     'adding a stored edge again or removing an absent one does not change it, and it is 0 for what occurs nowhere.',
     ['histories', 'inputs'], DOM, TESTS_HG, [SQL, LITE], [('inc_degree/dec_degree', SQL)], ['HyperGraph.degree'],
     'stateful model-based testing against a count', 'Random histories.')
prop('H05', 'Timestamps: an edge keeps the one it was first added with',
     'timestamp(edge) of a stored edge is the timestamp given when it was added, and adding it again with another one does not change it; after '
     'it is removed and added again, it is the new one. An element that is not a stored edge has the timestamp of the addition that brought it into '
     'use, while it stays in use; what was never stored has -1.', ['histories', 'inputs'], DOM + '; every 64-bit timestamp', TESTS_HG + ' One timestamp is read.',
     [SQL, LITE], [('insert_edge_with_perms/add_raw/timestamp', SQL)], ['HyperGraph.timestamp'],
     'stateful model-based testing', 'Timestamps of entities that have been out of use are not specified.')
prop('H06', 'f_all visits every vertex once, with its degree',
     'f_all(f) calls f exactly once for each vertex (each stored edge and each element of one), with the vertex and its degree as degree() '
     'gives it, and gives the results; f may itself query the store. What is not in use any more is visited at most once, with degree 0.',
     ['histories', 'inputs'], DOM + '; functions that do not write', TESTS_HG, [SQL], [('f_all', SQL)],
     ['HyperGraph.f_all'], 'stateful model-based testing', 'Random histories and stores of up to 1500 edges.')
prop('H07', 'symbols_with_root returns exactly the symbols with that root',
     'symbols_with_root(r) returns exactly the symbols with a namespace (r/...) that are elements of stored edges and whose root is r. Other '
     'roots that start with r, or that a wildcard of the database would match, do not count, whatever characters r has.',
     ['histories', 'inputs'], DOM + '; every root without slashes', TESTS_HG, [SQL], [('symbols_with_root/str_range', SQL)],
     ['HyperGraph.symbols_with_root'], 'stateful model-based testing with adversarial roots', 'Roots related by prefix, case and SQL special characters.')
prop('H08', 'remove_by_pattern and destroy remove exactly what they should',
     'remove_by_pattern(p) removes exactly the edges that pattern2edges(p) returns and leaves the others with their degrees and timestamps. '
     'destroy() leaves a store that answers all queries like a new one and can be used again.', ['histories', 'inputs'],
     DOM, TESTS_HG, [HG, SQL], [('remove_by_pattern', HG), ('destroy', SQL)],
     ['all queries'], 'stateful model-based testing', 'Compared to the model on all queries.')
prop('H09', 'What queries answer depends on the set of edges, not on its history',
     'Two stores that hold the same edges answer membership, pattern, star and degree queries alike, whatever the order, grouping '
     '(one call, several, a batch) and repetition of the additions, and whatever was added and removed in between. Adding a collection in one call is the same as adding its members in order.',
     ['histories'], 'every two histories that lead to the same set of edges', TESTS_HG, [HG, SQL], [('add/remove', SQL)], ['all queries'],
     'metamorphic testing: two histories, one set', 'Independent of the reference model.')
prop('H10', 'Reading changes nothing and keeps nothing locked',
     'Queries, hits or misses, inside or outside of a batch, do not change what is stored. After any query or write has returned, another connection can write to the '
     'same store.', ['histories', 'inputs'], 'every store and sequence of queries', 'The tests do not look at the tables or use a second connection.',
     [SQL, LITE], [('queries; commits', SQL)], ['tables of the store', 'a second connection'], 'property-based testing: frame condition on the tables',
     'Whole tables are compared before and after.')
prop('H11', 'Numbered permutations are all different, and are undone by number',
     'For n elements, the permutations numbered 0 to n!-1 are all n! different orders of the elements, and unpermutate gives the elements back '
     'from a permutation and its number. The index of a stored edge so leads back to the edge.', ['inputs'], 'every sequence and permutation number below the factorial of its length',
     'The tests permute a few fixed lists.', ['hypergraph/sql.py', EDGE], [('nthperm/permutate/unpermutate', 'gb/hypergraph/sql.py')], ['nthperm', 'unpermutate'],
     'property-based testing: bijection and inverse', 'All permutations up to arity 6, random ones of 7.')

prop('T01', 'A batch does what its operations do one by one, and they see each other',
     'Running functions in batch_exec, also nested, leaves the same store as running them outside of it in the same order, and queries within the batch '
     'see what was written before them in it. Each function is called once, in order, with the hypergraph.', ['histories', 'programs'],
     'every tree of operations, queries and nested batches', 'One test runs one batch of two additions.', [HG, SQL, LITE], [('batch_exec/open_connection/close', SQL)],
     ['HyperGraph.batch_exec', 'all queries'], 'stateful model-based testing of batch programs', 'Compared to the model within the batch and to a twin store after it.')
prop('T02', 'A batch or call that fails leaves no trace, and the store stays usable',
     'If a function of a batch raises anything, or a call that writes (add, remove, remove_by_pattern, a belief call, the flush of a buffer) fails half way (bad value, database error, full disk, '
     'an interruption), the store is exactly as it was before the batch or call. The exception reaches the caller and the store can be used as before.', ['fault_sequences', 'histories'],
     'every history and every point where a function, value or database call fails', 'No test makes anything fail.', [SQL, LITE], [('rollback in batch_exec/close', SQL)],
     ['all queries after the failure'], 'fault injection in generated histories', 'Errors are injected at each call to SQLite; a full disk is a limit to file sizes.')
prop('T03', 'A crash during a write leaves the state before or after it',
     'If the process ends at any point of a call that writes (add, remove, remove_by_pattern, a belief call, a flush, a batch, destroy) or of the opening of a store, the store opens again and is exactly as before the operation or '
     'exactly as after it. Once the operation has returned, it is as after it.', ['crash_points', 'histories'], 'every history and every crash point of its last operation',
     'No test ends a process.', [SQL, LITE], [('one transaction per operation', SQL), ('rollback journal', LITE)], ['the store opened again'],
     'crash-point enumeration over generated histories', 'Crash at each SQLite call and at each write to the files, recorded by an LD_PRELOAD shim.')
prop('T04', 'What was written is there when the store is opened again',
     'After any history, a store opened again by the same or another process answers all queries as before, whether the handle that wrote was closed, dropped, or its '
     'process ended.', ['histories', 'schedules'], 'every history cut by reopenings', 'The tests use one handle and one process.', [LITE, SQL], [('commits', SQL)], ['all queries'],
     'stateful model-based testing with reopenings and processes', 'SQLite backend, local file system.')
prop('T05', 'Several handles on one store see each other\'s writes, whole',
     'With several handles open on one store, each sees what the others have written as soon as the call has returned, and never part of a batch or of a call that is running. '
     'Writes of each are based on those of the others.', ['schedules', 'histories'], 'every interleaving of operations that do not overlap, and reads during a batch or a call that writes', 'The tests use one handle.',
     [LITE, SQL], [('connections and transactions', LITE)], ['all queries of all handles'], 'stateful model-based testing of interleavings', 'Operations overlap only as reads of other handles, between the functions of a batch and before each call to SQLite.')
prop('T06', 'Opening a store keeps its content; stores are apart; old layouts are upgraded',
     'Opening an existing store, any number of times, changes nothing in it, and stores in different files (whatever their names are) or in memory do not affect each other. A file written before degrees and '
     'timestamps existed is opened with its edges, and everything works on it. Opening that meets trouble (an error, a store that is locked) raises, or gives a store that works; after it the content is as before.', ['configurations', 'histories'], 'every history of openings and operations, every older layout',
     'The tests destroy the store before each test.', [LITE, SQL], [('create_tables', LITE)], ['all queries'], 'stateful testing with generated files', 'The old layouts are rebuilt from the steps of the upgrade in the code.')
prop('T07', 'Calls leave their arguments alone, and results belong to the caller',
     'No operation changes the collections it is given, and changing them, or a returned result, afterwards does not change the store, or what is waiting to be written to it. Lists and tuples are equivalent as edges and as '
     'collections of edges.', ['inputs', 'histories'], 'every operation with tuples, lists and mixes of them', 'The tests do not look at arguments after calls.', [HG, SQL], [('add/remove/pattern2edges', SQL)],
     ['arguments and results', 'all queries'], 'property-based testing: frame condition on arguments', 'Random histories.')
prop('T08', 'A loss of power leaves the state after one of the last writes',
     'After a loss of power at any point, the store opens and is as it was after some completed operation; at most the last completed one is missing. No operation or batch is there in '
     'part.', ['crash_points', 'histories'], 'every history, point, and subset of unsynchronised writes that is lost', 'No test can lose power.', [LITE, SQL], [('SQLite journal with synchronous=FULL', LITE)],
     ['the store opened again from the images of its files'], 'crash-image enumeration from recorded writes and fsyncs', 'Images by a model of a file system with per-file write ordering only at fsync.')
prop('T09', 'Calls of several handles that overlap have the effect of some order of them',
     'When calls of several handles (in several threads or processes) on one store overlap, each one takes effect as a whole or is refused (the store is locked) without effect, and then it can be done again. Results and the '
     'store at the end are those of the calls that took effect, one after another in some order, where a call that ended before another one began comes first: no degree is counted twice, nothing is lost or left in part.',
     ['schedules', 'histories'], 'every interleaving, at the calls to SQLite, of calls that write, single queries and batches with both; processes that run freely', 'The tests use one handle in one process.', [LITE, SQL, HG],
     [('transactions', SQL), ('begin', LITE), ('remove_by_pattern/remove_belief', HG)], ['results of calls', 'all queries of a new handle'], 'schedule fuzzing with a linearizability oracle',
     'Threads take turns at calls to SQLite in generated orders; processes run freely. SQLite backend.')

prop('B01', 'Beliefs: a fact stays as long as a source supports it',
     'sources(fact) is exactly the set of sources whose belief in it was added and not removed. Removing a belief removes the link from that source only, and removes the fact exactly '
     'when no source is left; several beliefs added in one call are the same as one by one.', ['histories', 'inputs'], 'every history of beliefs, additions and removals over well-formed facts and sources',
     'Two tests add and remove beliefs of one or two facts.', [HG], [('add_belief/sources/remove_belief', HG)], ['HyperGraph.sources', 'all queries'], 'stateful model-based testing', 'Model: a map from facts to sources.')
prop('B02', 'A buffering hypergraph writes everything, once it is flushed',
     'After flush(), the underlying store is exactly as if each edge had been added to it directly, in order, with its timestamp (that given to flush if none was given); edges are in the store '
     'at the latest when more than the maximum are waiting. Nothing is lost, duplicated or written again by later flushes, even if a flush fails and is tried again.', ['histories'], 'every history of additions and flushes, every size of the buffer',
     'No test uses it.', ['hypergraph/batch_hypergraph.py'], [('add/flush', 'gb/hypergraph/batch_hypergraph.py')], ['all queries of the underlying store'], 'differential testing against direct additions', 'Sizes of the buffer from 0 to 1000.')
prop('K01', 'The MySQL backend behaves like the SQLite backend',
     'For every history of operations, a hypergraph on the MySQL backend gives the same answers as one on the SQLite backend. Failed batches are undone and data is kept in the same way. A handle that is made while the server has trouble works, or there is none.',
     ['histories', 'configurations'], 'every history of operations with edges whose text fits the key', 'The tests for MySQL are not run: there is no server.', [MYSQL, SQL],
     [('MySQL', MYSQL)], ['all queries'], 'differential testing on an emulated MySQL server', 'The server is a stand-in on SQLite that follows the documented behaviour of MySQL (parameters, row counts, autocommit, errors).')
prop('K02', 'The null backend stores nothing and accepts every operation',
     'A hypergraph on the null backend accepts every operation of the interface, stays empty whatever is done to it, and answers every query like an empty store. Functions of batches are still called, once and in order, '
     'with the hypergraph.', ['histories', 'configurations'], 'every history of operations', 'No test uses it.', ['hypergraph/null.py'], [('Null', 'gb/hypergraph/null.py')], ['all queries'],
     'differential testing against an empty store', 'Random histories.')
prop('K03', 'The command line runs the command on the hypergraph that the options name',
     'gbrain runs exactly the named command (create, wordnet, shell) on the hypergraph that --backend, --db and the connection parameters (--dbhost, --dbuser, --dbpass) select, and on no other. create makes an empty store; the wordnet command leaves what importing '
     'WordNet into that store does. A backend or command that does not exist ends with a non-zero status and touches nothing.',
     ['configurations', 'inputs'], 'every combination of options and commands', 'No test runs the command line.', ['gbrain.py', 'tools/shell.py', 'constants.py'], [('click commands', 'gb/gbrain.py')], ['files and tables after the command, its output and status'],
     'property-based testing of generated command lines', 'WordNet and the MySQL server are stand-ins.')
prop('Q01', 'ego(center, depth) is the edges reached within depth steps',
     'ego(center, depth) is exactly the set of stored edges that contain the center or an entity reached from it in fewer than depth steps, where a step leads from an entity to any argument (element but the first) of an edge '
     'that contains it. Depth 0 gives none, depth 1 the star, and a greater depth never gives less.', ['inputs', 'histories'], 'every store, center and depth',
     'One test asks one ego network.', [HG], [('ego', HG)], ['HyperGraph.ego'], 'property-based testing against breadth-first search', 'Stores of up to 12 edges, depth up to 4.')
prop('Q02', 'intersect finds the edges along the shortest walks that join the seeds',
     'intersect(hg, seeds) gives exactly the edges of the depth-2 neighbourhoods of the seeds (hubs of degree over 250 excluded) whose arguments all lie on kept walks: simple walks from the first seed that end as soon as they contain all seeds, kept if each '
     'step that is not a seed occurs in no shorter walk.', ['inputs'], 'every store and sequence of seeds',
     'One test asks one intersection.', ['hypergraph/queries.py'], [('intersect/walks/valid_walk', 'gb/hypergraph/queries.py')], ['queries.intersect'],
     'property-based testing against an independent reference', 'Small stores; hubs around the limit of 250.')
prop('W01', 'Importing WordNet writes exactly its content as sourced facts',
     'For every WordNet database, the import writes, each as a belief of the source wordnet/gb: for each synset the part of speech of its first lemma, the first lemma as a synonym of each of the others, and its relations to the first lemma of other synsets (hypernyms, '
     'instance hypernyms, member meronyms, attributes, entailments, causes, also sees, verb groups, similar tos); for each lemma its antonyms, pertainyms and derivationally related forms. It writes nothing else, and a lemma of a synset has the same symbol wherever it occurs.',
     ['inputs'], 'every WordNet database', 'There are no tests, and no corpus here.', ['readers/wordnet.py'],
     [('WordNet reader', 'gb/readers/wordnet.py')], ['the store after the import'], 'differential testing with generated WordNet files read by NLTK', 'An independent reading of the same NLTK objects is the oracle.')
prop('W02', 'The filter of Wikidata dumps keeps exactly the pages that it should',
     'filter_wikidump.py writes out the dump without the pages whose title has a colon, and everything else unchanged and in order.', ['inputs'], 'every dump with one element per line',
     'There are no tests.', ['python/filter_wikidump.py'], [('filter', 'python/filter_wikidump.py')], ['standard output of the script'], 'property-based testing against a reference', 'Generated dumps.')
prop('N01', 'Parsed sentences mirror the parse, token by token',
     'Parsing a text gives its sentences in order, each with one token per word of the parse, with its word (lower case, without white space around it), lemma, part of speech, dependency, shape and entity type. Parents, left and right children agree with the parse and with each other '
     '(a token is a child of its parent, on its side), and the root has no parent. This holds for every text given to one parser.', ['inputs'], 'every text and dependency parse', 'The tests need a language model that is not here, and look at no tokens.', ['nlp/parser.py', 'nlp/nlp_token.py', 'nlp/sentence.py'],
     [('Parser.parse_text', 'gb/nlp/parser.py'), ('Token', 'gb/nlp/nlp_token.py')], ['Parser.parse_text'], 'property-based testing with generated parses', 'Parses are spaCy documents with generated heads, tags and dependencies; the statistical model is replaced.')
prop('N02', 'Views of sentences show every token as it is',
     'The text, the label tree and the printed tree of a sentence, and the token lists and chunk text of each token, show exactly the tokens of the parse, each once, with their labels, in the order and nesting of the parse; also '
     'when several tokens look the same. Word lists leave out exactly punctuation, spaces and separators. Looking at tokens changes nothing.', ['inputs'], 'every parsed sentence with a projective parse',
     'There are no tests.', ['nlp/nlp_token.py', 'nlp/sentence.py'], [('Sentence.label_tree/print_tree', 'gb/nlp/sentence.py'), ('Token.to_list/chunk_str', 'gb/nlp/nlp_token.py')], ['printed views', 'token lists'], 'property-based testing against a reference printer', 'Generated parses, also of many equal tokens.')
prop('G01', 'The first stage builds the tree of the parse without losing words',
     'The alpha stage turns each parse into a tree whose leaves are exactly the tokens that are not punctuation, without a dependency, or below such a token, each once. Compounds and complements of prepositions (compound, pcomp) are grouped around their head in the order of the sentence; '
     'modifiers (aux, auxpass, cc, agent, det, advmod, amod, poss, nummod, and prep where there is no verb in the head so far) are nested around the head in the order of the sentence, the first one outermost, each with its own arguments after the head; '
     'the other dependents follow the head as arguments, in the order of the sentence. No node has fewer than two elements.', ['inputs'], 'every projective dependency parse', 'The tests of the extractor need a language model that is not here, and have eight sentences.', ['knowledge/stages/alpha.py', 'knowledge/semantic_tree.py'],
     [('AlphaStage', 'gb/knowledge/stages/alpha.py'), ('nest/apply_layers', 'gb/knowledge/semantic_tree.py')], ['AlphaStage.process_sentence'], 'property-based testing: conservation and an independent reference', 'Generated parses of up to 40 tokens, and the sentences of the existing tests.')
prop('G02', 'The second stage marks compounds and gives namespaces, and nothing else',
     'The beta stage keeps the structure and the words of the tree, gives every element the namespace 1, and marks as compound exactly the nodes that are runs of words of one kind of named entity (all their elements are words of the same entity type) or that are nominal (all words below are compound, pobj, dobj or nsubj). Everything below a compound is part of it.', ['inputs'],
     'every tree of the first stage', 'As for G01.', ['knowledge/stages/beta.py'], [('BetaStage', 'gb/knowledge/stages/beta.py')], ['BetaStage.process'], 'property-based testing against an independent reference', 'Generated parses and the sentences of the existing tests.')
prop('G03', 'The third stage combines relationships and drops only articles',
     'The gamma stage drops exactly the articles (determiners with the lemma the, an or a) that are the first of two elements, and no other word, and adds none. A relationship is what has only verbs, adverbs, adpositions and particles. Nodes of such words are marked as compound; '
     'where a relationship is followed only by a node that starts with a relationship, and is no compound, it becomes one compound with the innermost relationship at the front of that node, in order. Nothing else changes.', ['inputs'], 'every tree of the first two stages', 'As for G01.',
     ['knowledge/stages/gamma.py'], [('GammaStage', 'gb/knowledge/stages/gamma.py')], ['GammaStage.process'], 'property-based testing: conservation and an independent reference', 'Generated parses and the sentences of the existing tests.')
prop('G04', 'The fourth stage merges relationships at the root in the way that fits best',
     'The delta stage keeps every word, once. A tree whose root does not start with a relationship stays as it is. Otherwise the result is, among all the ways to merge relationships of elements with the one at the front (or to leave them), the first one with the best fit: its number of arguments '
     'fits the relationship, and the arguments were directly under the part of the relationship they now belong to. The element at the front of the root ends up without nested relationships that are no compounds. No way that is not chosen leaves marks of compounds behind.', ['inputs'], 'every tree of the third stage', 'As for G01.',
     ['knowledge/stages/delta.py'], [('DeltaStage', 'gb/knowledge/stages/delta.py')], ['DeltaStage.process'], 'property-based testing: conservation and an independent reference', 'Generated parses of up to 9 tokens (candidates grow exponentially) and the sentences of the existing tests.')
prop('G05', 'The last stage writes the tree as an edge with the same structure',
     'The epsilon stage writes each word as a valid symbol (str2symbol of the word) with its namespace, each compound as one symbol with its words joined by underscores in order and the namespace ?, and each other node as an edge of its elements in order. The result can be written to '
     'and read from the edge notation unchanged, whatever characters the words have.', ['inputs'],
     'every tree of the second to fourth stages', 'As for G01.', ['knowledge/stages/epsilon.py'], [('EpsilonStage', 'gb/knowledge/stages/epsilon.py')], ['EpsilonStage.process'], 'property-based testing against an independent reference', 'Generated parses with usual and odd words.')
prop('G06', 'Extraction is a deterministic function of each parse',
     'Reading a text gives one result for each sentence, in order, that depends on the parse of that sentence only: not on other sentences or texts read before, on the hypergraph, or on debugging. The outputs are the texts of the results of the stages, and fewer stages give the first of them. '
     'Punctuation does not matter, renaming words renames them in the result, and the hypergraph is not changed. The annotated sentences of the tests give the expected results at every stage.', ['inputs', 'histories'],
     'every text and parse, and every prefix of the stages', 'As for G01.', ['knowledge/extractor.py'], [('Extractor.read_text/read_sentence', 'gb/knowledge/extractor.py')], ['Extractor.read_text', 'Extractor.outputs'], 'metamorphic testing with generated parses; annotated sentences of the existing tests', 'The statistical model is replaced by prepared parses.')
prop('G07', 'Semantic trees keep their structure under their operations',
     'Copies of elements are equal and independent of them. Flattening splices nodes that are no compounds into their parent and keeps the order of words. Enclosing, disenclosing and adding elements change only that place, in order; removing redundant nesting removes exactly the nodes that have just one node in them, and '
     'doing it twice is the same as once. Marking a node as compound marks all nodes below. Equality is that of nesting and words (text, part of speech, dependency). Every element is found by its identifier, and parts of speech, dependencies, arity and words are those of the elements.', ['inputs', 'histories'], 'every tree and sequence of operations', 'There are no tests.', ['knowledge/semantic_tree.py'], [('Tree/Node/Leaf', 'gb/knowledge/semantic_tree.py')], ['semantic_tree.Tree'],
     'stateful model-based testing of tree operations', 'Model: nested lists.')

NOT_APPLICABLE = {}

BP = 'src/main/java/de/l3s/boilerpipe/'
ECO = 'src/main/java/org/graphbrain/eco/'
prop('J01', 'A page becomes blocks of text that have all of its text and its structure',
     'Reading a page gives its title (the text of the TITLE in its head, if there is any) and the blocks of text of its body: all the text that is not in an ignored element (STYLE, SCRIPT, OPTION, OBJECT, EMBED, APPLET, LINK, NOSCRIPT), in order, '
     'each word once, cut where an element that is not inline starts or ends, without white space around it. Each block has the number of its words, of its words in links, the text density of its lines of 80 characters, the link density, '
     'the depth of the elements around its first text (inline ones do not count), the labels of the list items and headings around it (and of no others), its place, and exactly the text elements that it was made of. '
     'Inline elements, comments and ignored elements make no difference to the text of the blocks, and neither does the encoding of the page.',
     ['inputs'], 'every well-formed page without nested links, as text, characters or bytes in an encoding, with names of elements in either case',
     'There are no tests of the Java code.', [BP + 'sax/BoilerpipeHTMLContentHandler.java', BP + 'sax/CommonTagActions.java', BP + 'sax/DefaultTagActionMap.java', BP + 'util/UnicodeTokenizer.java', BP + 'document/TextBlock.java'],
     [('BoilerpipeHTMLContentHandler', BP + 'sax/BoilerpipeHTMLContentHandler.java'), ('TagAction', BP + 'sax/CommonTagActions.java')], ['BoilerpipeSAXInput.getTextDocument', 'TextBlock'],
     'property-based testing against an independent model of pages, and metamorphic relations', 'The HTML parser is not installed and the one of the JDK stands in for it, so that pages are well-formed.')
prop('J02', 'The article of a page is what the rules say',
     'Each rule of the extractors (filters and classifiers), on every document, keeps, drops, fuses and labels exactly the blocks that its description says, with the limits on words, densities, depths, distances and labels that it has; fused blocks '
     'have the text, numbers, labels and elements of both, in order; and the extractors (article, sentences of articles, default, largest content, Canola, word rules, everything, everything with k words) apply their rules one after the other. '
     'The text of a document is that of its content blocks, each on a line of its own, in order; statistics count the same blocks; and copies of documents do not depend on each other.',
     ['inputs'], 'every document of blocks and every sequence of rules (but SurroundingToContentFilter, ArticleMetadataFilter and PrintDebugFilter), and every page',
     'There are no tests of the Java code.', [BP + 'filters/', BP + 'extractors/', BP + 'document/TextDocument.java', BP + 'document/TextBlock.java', BP + 'document/TextDocumentStatistics.java', BP + 'estimators/SimpleEstimator.java'],
     [('filters', BP + 'filters/'), ('extractors', BP + 'extractors/')], ['BoilerpipeFilter.process', 'ExtractorBase.getText', 'TextDocument.getText'], 'property-based testing against an independent model of the rules',
     'Numbers are drawn around the limits of the rules; what filters return, which nothing uses, is not checked.')
prop('J03', 'Extracted HTML has exactly the content and what encloses it',
     'Highlighting a page gives the same page without ignored elements and the content of its head, with the marks around each text that is content, and the style sheet in place of the head; extracting gives well-formed HTML with exactly the texts that are content, in order, '
     'each inside the elements it is in on the page with their attributes, where elements without content, and elements around all of it, are left out. Text and attributes mean the same as on the page whatever characters they have. '
     'With a white list, exactly the elements and attributes on it are kept. What graphbrain.kr.meat extracts from a page is the HTML of its article. The images of a page are those after a text that is content if there is more content after them, with their attributes.',
     ['inputs'], 'every well-formed page, choice of its texts and setting of the highlighter',
     'There are no tests of the Java code.', [BP + 'sax/HTMLHighlighter.java', BP + 'sax/ImageExtractor.java', BP + 'document/Image.java', 'src/main/clojure/graphbrain/kr/meat.clj'],
     [('HTMLHighlighter', BP + 'sax/HTMLHighlighter.java'), ('ImageExtractor', BP + 'sax/ImageExtractor.java')], ['HTMLHighlighter.process', 'ImageExtractor.process'], 'property-based testing against an independent model',
     'The HTML parser is not installed and the one of the JDK stands in for it; the Clojure function cannot run here, and the same calls are made from Java.')
prop('J04', 'Words keep their order, tags, lemmas and places',
     'Each word of a text has its own tag and lemma, in the order of the text, and the HTML tag given for its place. Appending, slicing (both ends included), removing a full stop at the end, comparing the end, and copying lists of words do what they do on lists, '
     'keep the position of the first word in the text (a slice moves it by its start, and appending starts at 0), and change none of the words they are called on; words with the same text and tag are equal and have the same hash code.',
     ['inputs'], 'every list of words, slice inside of it, and text whose words are separated by spaces',
     'There are no tests of the Java code.', [ECO + 'Words.java', ECO + 'Word.java', ECO + 'POSTagger.java', ECO + 'StanfordLemmatizer.java', ECO + 'HtmlTag.java'],
     [('Words', ECO + 'Words.java'), ('POSTagger.annotate', ECO + 'POSTagger.java')], ['Words', 'Words.fromString'], 'property-based testing against lists', 'The Stanford tagger is not installed and a simple one stands in for it.')


def not_applicable(pid, title, statement, over, text, files, mechanism, reason):
    prop(pid, title, statement, over, text, 'They are not run: the tests of this part need a Clojure toolchain that is not here.', files, mechanism, [], '', '')
    NOT_APPLICABLE[pid] = reason


CLJ = 'no Clojure or ClojureScript compiler or runtime is installed and none can be fetched, so the code can not be run on any generated input'
not_applicable('C01', 'The Clojure hypergraph behaves like the Python one',
               'For every history of operations, the Clojure hypergraph (memory and SQL backends) gives the same answers as a set of edges.', ['histories'],
               'every history of operations', ['src'], [('graphbrain.hg', 'src')], CLJ)
not_applicable('C02', 'The Clojure text pipeline keeps the words of the sentence',
               'The Eco parser turns each sentence into an edge with its content words, in order, by the rules of its chains.', ['inputs'], 'every sentence', ['eco'], [('eco chains', 'eco')], CLJ)
not_applicable('C03', 'The web interface shows exactly what the hypergraph answers',
               'Each page and API call of the web server shows the answer of the corresponding query, and no input of a user reaches a page unescaped.', ['inputs'], 'every request', ['src'], [('graphbrain.web', 'src')], CLJ)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    checks, missing = [], []
    for p in P:
        if p['id'] in NOT_APPLICABLE:
            missing.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        elif os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                           'level': 'fault_enumeration' if p['id'] in ('T03', 'T08') else 'exploration', 'level_note': p['note']})
        else:
            missing.append({'property': p['id'], 'reason': 'its check is not built yet'})
    manifest = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': missing,
                'notes': 'See DESIGN.md. Every failure is shrunk and written to replays/; ./check --replay FILE runs it again.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'claimed,', len(missing), 'not')


main()
