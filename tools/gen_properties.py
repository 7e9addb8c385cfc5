#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
MI='gaoya/src/minhash/minhash_index.rs'; IC='gaoya/src/minhash/id_container.rs'; MM='gaoya/src/minhash/mod.rs'
MH='gaoya/src/minhash/min_hasher.rs'; MH64='gaoya/src/minhash/min_hasher64.rs'; SI='gaoya/src/minhash/string_index.rs'
SX='gaoya/src/simhash/sim_hash_index.rs'; SP='gaoya/src/simhash/permutation.rs'; SH='gaoya/src/simhash/sim_hash.rs'; SM='gaoya/src/simhash/mod.rs'; SHR='gaoya/src/simhash/sim_hasher.rs'
CP='gaoya/src/clustering/clusterer_parallel.rs'; CS='gaoya/src/clustering/clustering_serial.rs'
TT='gaoya/src/text/tokenizers.rs'; TM='gaoya/src/text/multi_shingles.rs'
PM='py-gaoya/src/min_hash.rs'; PS='py-gaoya/src/sim_hash.rs'; PL='py-gaoya/src/lib.rs'; PYM='py-gaoya/gaoya/minhash.py'; PYS='py-gaoya/gaoya/simhash.py'

p('C01','MinHash threshold query is exact with respect to the current contents',
 'After any history of inserts, re-inserts, bulk inserts, removals, bulk removals, clears and capacity changes, querying a MinHash index with a signature returns exactly the ids currently in the index whose current signature agrees with the query on every hash of at least one whole band and whose fraction of agreeing hashes is greater than or equal to the similarity threshold. Nothing about earlier contents of the index (removed ids, replaced signatures, the order of operations) and no choice of hash type, id type, band layout or threshold changes that answer.',
 ['histories','inputs','configurations'],
 'every history of index operations, every query signature, every (bands, band width, threshold, hash type, id type, container)',
 'The unit tests run about five hand-written histories on two band layouts; stale or missing band entries only show after particular insert/replace/remove orders and particular signature overlaps.',
 [MI,IC], [('per-band hash tables filled on insert and emptied on remove','MinHashBand::insert/remove/query'),('final filter by full signature similarity','MinHashIndex::query, query_owned')],
 [('bands','band slice hash -> ids',MI),('id_signatures','id -> current signature',MI)], ['MinHashIndex::query','MinHashIndex::query_owned'])

p('C02','All MinHash query forms agree and rank correctly',
 'For every index state and query, the borrowed, owned, by-id, trait-object, with-similarity and bulk query forms name the same set of ids; the with-similarity form reports for each id the exact fraction of agreeing hashes, sorted from highest to lowest. The single best match is an id of maximal similarity among that set, and is absent only if the set is empty; the top-k form returns the k (or all, if fewer) nearest band-sharing ids without duplicates, nearest first, with their exact distances.',
 ['histories','inputs','configurations'],
 'every index state reachable by a bounded history, every query signature, every k, including similarities exactly equal to the threshold',
 'Tests compare at most one query form per state and never hit similarity == threshold or k around the candidate count.',
 [MI], [('candidate collection plus filter duplicated per query form','MinHashIndex::{query,query_owned,query_one,query_by_id,query_by_id_owned,query_owned_return_similarity,query_top_k,par_bulk_query*}')],
 (), ['return values of the query methods'])

p('C03','A MinHash index is a map from id to latest signature, with no residue',
 'For every history, the size, the stored signature of each id, the id-to-signature map and the return values of remove and bulk remove are those of a plain map from id to most recently inserted signature. Removal and clearing leave nothing behind (each band holds exactly the distinct band values of the signatures currently stored), and clearing, shrinking or reserving capacity never panics and never changes which ids are stored.',
 ['histories','inputs','configurations'],
 'every history of operations including removal of absent and repeated ids, shrinking of empty and full indexes, and repeated insertion of one id',
 'Tests remove known ids only, never call the shrink functions, and never look at what removal leaves in the bands.',
 [MI,IC], [('id map and band tables updated together','MinHashIndex::insert/remove/bulk_remove/clear/shrink_to/shrink_to_fit'),('empty buckets deleted','MinHashBand::remove')],
 [('id_signatures','id -> current signature',MI)], ['size','get_signature','get_id_signature_map','remove','bulk_remove','band_sizes'])

p('C04','Bulk and parallel operations equal their one-at-a-time counterparts',
 'For every batch and under every schedule of worker threads, a bulk or parallel insert, removal, query or signature computation (MinHash and SimHash) has exactly the effect and the results, in the same order as the inputs, of performing the corresponding single operation on each element in turn. This holds for empty batches, for batches with repeated or absent ids, and for batches of any size.',
 ['schedules','inputs','histories'],
 'every batch content and length, every interleaving of the worker threads that execute it',
 'Two tests insert one fixed batch through the bulk path; neither compares with the serial path nor controls the schedule.',
 [MI,MM,SX,'gaoya/src/minhash/min_hasher64.rs'], [('one worker per band / table / signature, no shared mutable state','par_bulk_insert, par_bulk_insert_pairs, bulk_remove, par_bulk_query*, bulk_create_signature*')],
 (), ['state of the index after the call','order and content of returned vectors'])

p('C05','The choice of id container is unobservable',
 'Hash-set, vector and small-vector id containers (of any inline capacity) are interchangeable: the same history of index operations gives the same answers to every query whichever container is used. A container on its own holds exactly the ids pushed and not yet removed, including when a small vector spills from inline to heap storage and back.',
 ['histories','configurations'],
 'every history of pushes/removals and every history of index operations, for every container type and inline capacity',
 'One test repeats a single fixed history over three containers; it never re-inserts an id nor crosses the inline capacity on removal.',
 [IC,MI], [('IdContainer implementations','HashSetContainer, VecContainer, SmallVecContainer'),('position + swap_remove on vectors','IdContainer::remove')],
 (), ['IdContainer::{len,is_empty,copy_to,copy_refs_to}','query results'])

p('C06','MinHash signatures are consistent min-wise functions of the token set',
 'A signature has exactly the configured number of hashes and depends only on the set of tokens and on the hasher parameters: not on token order or repetition, not on the hasher instance, not on whether it was computed alone or in a batch. At each position the value is that of one of the tokens, selected by an ordering of tokens that is fixed for the position and independent of which other tokens are present, so adding tokens never replaces a position by anything but a newly added token; the empty set has one fixed signature.',
 ['inputs','configurations'],
 'every finite token set, order and multiplicity; every signature length, seed, hash width (8, 16, 32, 64 bits) and underlying hasher',
 'Tests compare two similarity estimates against a loose tolerance; they cannot show independence of order, repetition or of the other tokens.',
 [MH,MH64,MM], [('per-position affine hash and minimum over tokens','create_signature'),('coefficients derived from a fixed seed','new_with_hasher_and_seed')],
 [('a, b','per-position hash coefficients',MH)], ['create_signature','bulk_create_signature','bulk_create_signature_refs'])

p('C07','MinHash similarity estimates the Jaccard similarity',
 'With k hash functions the fraction of agreeing hashes of two token sets estimates their Jaccard similarity for every hash width: identical sets score 1, disjoint sets score close to 0 (up to the collision rate of the hash width), and on every pair of subsets of a small token universe the error stays within a few standard deviations (1/(2 sqrt k)) of the true value (somewhat more where the token hasher maps similar tokens to similar hashes), with no systematic bias over all pairs.',
 ['inputs','configurations'],
 'every pair of subsets of a bounded token universe, every hash width, several signature lengths, seeds and token hashers',
 'Tests look at two pairs of sentences with tolerance 0.15; a bias for small sets, repeated positions or one hash width passes them.',
 [MH,MH64,MM], [('independent per-position coefficients','new_with_hasher_and_seed'),('match counting','compute_minhash_similarity')],
 (), ['MinHasher::compute_similarity','compute_jaccard_similarity'])

p('C08','SimHash query returns exactly the ids within the Hamming distance',
 'For every history of inserts, re-inserts and bulk inserts and every query signature, a SimHash index returns exactly the ids whose current signature differs from the query in at most the configured number of bits: none missing, none beyond, whatever the positions of the differing bits, for 64 and 128 bit signatures and every number of blocks not smaller than the distance.',
 ['histories','inputs','configurations'],
 'every signature pair and bit position, every (blocks, distance) configuration, every insertion history',
 'One test with random near-duplicates checks the nearest distance once; misses at block boundaries, at the exact distance limit or in one width stay invisible.',
 [SX,SP], [('one table per choice of intact blocks (pigeonhole)','Permutation::create'),('final filter by Hamming distance','SimHashTable::query, query_owned')],
 [('hash_tables','masked signature -> ids',SX),('id_signatures','id -> current signature',SX)], ['SimHashIndex::query','SimHashIndex::query_owned'])

p('C09','All SimHash query forms agree and the size is the number of ids',
 'For every index state and query the borrowed, owned, with-distance and bulk forms name the same ids, distances are the exact number of differing bits sorted from lowest to highest, and the single best match has the minimal distance and is absent only if no id qualifies. The reported size is the number of distinct ids inserted.',
 ['histories','inputs','configurations'],
 'every bounded insertion history, every query signature and configuration',
 'Only the single-best form is tested, once; size is never tested.',
 [SX], [('candidate filter duplicated per form','query, query_owned, query_one, query_return_distance, par_bulk_query*')],
 (), ['return values of the query methods','SimHashIndex::size'])

p('C10','SimHash signatures and centroids are bitwise majorities',
 'Every bit of a SimHash signature is decided by the majority, over all tokens counted with repetition, of that bit in the signatures of the single tokens, with ties always resolved the same way; it therefore depends neither on token order nor on the hasher instance and is computed alike for 64 and 128 bits. A centroid has a bit set exactly when more than half of the given signatures have it set.',
 ['inputs','configurations'],
 'every finite token multiset and order, every hasher key and width, every list of signatures and every bit position',
 'Tests bound the distance between two fixed texts; centroids are never tested.',
 [SH,SHR], [('signed counters per bit','SimHash::create_signature'),('bit counters against half of the count','SimHash::create_centroid')],
 (), ['SimHash::create_signature','SimHash::create_centroid'])

p('C11','Similarity and distance measures match their definitions',
 'For all inputs, MinHash similarity is the fraction of equal positions and distance its complement, Jaccard similarity and distance are those of the token sets, and the thresholded comparison holds exactly when the similarity is at least the threshold. Hamming distance counts differing bits, the Hamming angle scales it to a fraction of pi over the bit length, and all measures are symmetric and zero (or one) on equal inputs.',
 ['inputs'],
 'every pair of equal-length signatures, every pair of token sets (not both empty), every threshold in [0,1], every pair of 64/128-bit signatures up to a bounded number of differing bits',
 'One doc-test with a one-sided comparison; the thresholded comparison and the Hamming angle are never tested.',
 [MM,SM], [('counting of equal positions','compute_minhash_similarity, similarity_greater_than_threshold'),('xor and popcount','SimHashBits::hamming_distance, hamming_angle')],
 (), ['return values'])

p('C12','Computed band parameters meet the requested recall',
 'For every similarity in (0,1), number of hashes n >= 1 and desired probability in (0,1), the computed number of bands b and band width r use at most n hashes, and n/r bands. Sets of that similarity share a bucket with more than the desired probability 1-(1-s^r)^b unless even r = 1 cannot reach it, and r is the width reached by widening one step at a time while the probability is still met and more than one band is left.',
 ['inputs','configurations'],
 'every (similarity, number of hashes, probability) on a fine complete grid',
 'The doc-test checks two points.',
 [MM], [('greedy search over r','calculate_b_and_r')], (), ['calculate_minhash_params','calculate_minhash_params_with_proba'])

p('C13','The centroid of a group takes the most frequent band values',
 'For every index and every list of ids of which at least one is stored, the computed centroid has the length of a signature, and in each band it equals a band value that is most frequent among the current signatures of the listed stored ids, whatever the order of the list; ids that are not stored are ignored.',
 ['histories','inputs','configurations'],
 'every assignment of small signatures to ids, every list of ids with repetitions and unknown ids, every band layout',
 'Only a private per-hash variant is tested, on one list.',
 [MI,MM], [('count of band slices per band','minhash_band_centroid_from_refs')], (), ['MinHashIndex::calculate_centroid'])

p('C14','Tokenisers produce exactly the specified words and n-grams',
 'For every text, word splitting yields exactly the maximal runs free of ASCII punctuation and ASCII whitespace, in order and never empty. Shingling yields, for every n in the requested inclusive range, exactly all contiguous n-grams (of characters, never splitting a UTF-8 character, or of tokens), each as often as it occurs, including those at the end of the text and for texts shorter than the largest n.',
 ['inputs','configurations'],
 'every string over an alphabet with 1- to 4-byte characters, separators and punctuation, every size and range',
 'The text module has no tests at all.',
 [TT,TM], [('split on ASCII separators','whitespace_split, whitespace_split_boxed'),('sliding window over char boundaries with varying size','MultiShingles::next, Shingles')],
 (), ['whitespace_split*','shingle_text*','shingle_text_range','shingle_tokens','MultiShingles'])

p('C15','Parallel clustering yields disjoint, consistent clusters in every schedule',
 'When several threads cluster points of a shared set at the same time, in every interleaving no point is a member of two returned clusters, every member of a returned cluster refers to exactly that cluster, no point refers to a cluster that was not returned, cluster ids are distinct, and every returned cluster has at least the minimum size and consists of points that are all similar to one common point. The run never panics, deadlocks, livelocks or touches freed memory, for any number of threads and points.',
 ['schedules','inputs','configurations'],
 'every interleaving (bounded preemptions) of 2-4 threads, every similarity graph on few points, every distribution of points to threads, every minimum size, more threads than points',
 'The clustering module has no tests at all; its conflict handling only runs under contention.',
 [CP], [('atomic assignment of points to clusters','ClusterPointInner::assign_cluster'),('commit / rollback of clusters','Clusterer::try_create_cluster, rollback_cluster_points'),('chunking of points over threads','Clusterer::cluster_par')],
 [('ClusterPointInner::cluster','cluster a point belongs to, null if none',CP)], ['returned clusters','ClusterPointInner::get_cluster','cluster_id'])

p('C16','Parallel clustering makes progress',
 'In every schedule, if some point of the set has at least the minimum number of similar points then at least one cluster is returned: concurrent attempts never all cancel each other. Run by a single thread the clusterer is also exhaustive: afterwards no point it processed is unassigned while at least the minimum number of its similar points are still unassigned.',
 ['schedules','inputs','configurations'],
 'every interleaving (bounded preemptions), similarity graph, distribution of points to threads and minimum size',
 'No tests exist; lost-progress outcomes need two threads to conflict symmetrically.',
 [CP], [('one side of a conflict always wins','Clusterer::try_create_cluster')],
 (), ['returned clusters'])

p('C17','Serial clustering partitions points greedily and consistently',
 'For every similarity relation and point order, serial clustering assigns each point to at most one cluster, records on each member the id of the cluster it is in, leaves other points unassigned, and never reuses a cluster id during the life of the clusterer, also across several calls. Clusters have at least the minimum size and consist of points similar to one common point, and no point is left unassigned while more than the minimum number of its similar points are unassigned.',
 ['inputs','histories','configurations'],
 'every similarity graph on few points, point order, minimum size, and sequence of clustering calls',
 'The clustering module has no tests at all.',
 [CS], [('skip of assigned points and assignment on creation','Clusterer::cluster, create_new_cluster'),('cluster id sequence','Clusterer::cluster_id_sequence')],
 (), ['returned clusters','ClusterPointInner::cluster'])

p('C18','The string index never loses a document, however it is loaded',
 'For every interleaving of single inserts, loads from lines or files and parallel file loads, the string index holds every readable line and inserted text as a separate document: its size is their number and a query returns exactly those documents whose signatures match, regardless of the path by which they were loaded. Lines that are not valid UTF-8 are skipped alike by all load paths, short reads do not matter, and a reader that starts failing ends the load instead of hanging or panicking (the incomplete line it was reading may count or not).',
 ['histories','inputs','fault_sequences'],
 'every sequence of load operations, file content over a small alphabet, chunking of the reader and position of a read error',
 'One test loads one well-formed in-memory file through one path.',
 [SI], [('document id sequence','MinHashStringIndex::doc_id'),('serial and parallel loaders','load_from_lines, load_from_file, load_from_file_parallel')],
 [('doc_map','document id -> text',SI)], ['size','query','return value of the load functions'])

p('C19','The Python MinHash index means what its options say',
 'For every combination of hash size, id container, band parameters, analyzer, lowercase and n-gram options, the Python MinHash index behaves as an exact banding index over the n-gram sets of its documents: after any history of single or bulk inserts and removals, single, bulk and with-similarity queries agree with each other and with that model, and documents with equal n-gram sets are indistinguishable while others are not conflated. Batches of any size give the results of single operations, and an invalid hash size, threshold or id container, or missing band parameters, raise ValueError.',
 ['histories','inputs','configurations'],
 'every option combination, every bounded history of documents, batch sizes on both sides of the parallel threshold',
 'Seven tests use a handful of documents and mostly one n-gram setting; bulk paths above the parallel threshold and the char analyzer are untested.',
 [PYM,PM,PL], [('dispatch on hash size and container','MinHashStringIndex.__init__'),('tokenizer selection','TokenizerSpecification::new, tokenize_and_minhash'),('bulk threshold','par_bulk_insert_docs')],
 (), ['gaoya.minhash.MinHashStringIndex'])

p('C20','The Python SimHash index means what its options say',
 'For every combination of hash size, blocks, distance, analyzer, lowercase and n-gram options, every query form of the Python SimHash index (single, bulk, with or without distances, built-in or callable analyzer) works and returns exactly the documents whose signatures are within the configured Hamming distance, with exact distances in ascending order. Documents with equal n-gram multisets have equal signatures, and an invalid hash size, number of blocks, distance or analyzer name raises ValueError.',
 ['histories','inputs','configurations'],
 'every option combination, every bounded history of documents and every query form',
 'The Python SimHash index has no tests at all.',
 [PYS,PS,PL], [('dispatch on analyzer and return form','SimHashStringIndex.query, par_bulk_query'),('tokenizer selection','tokenize_and_simhash')],
 (), ['gaoya.simhash.SimHashStringIndex'])

p('C21','Signatures of the wrong length are rejected and leave the index intact',
 'Every insert or query, single or bulk, that is given a signature whose length is not the number of hashes of the index panics instead of accepting it or answering from a part of it, wherever in the batch the wrong signature stands. After the rejected call the index answers every query exactly as before it.',
 ['inputs','fault_sequences','histories'],
 'every index state, every API entry that takes a signature, every wrong length (including 0) and every position in a batch',
 'No test passes a signature of the wrong length.',
 [MI], [('length assertions','MinHashIndex::insert, par_bulk_insert*, query*')], (), ['panic or not','all queries after the call'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
