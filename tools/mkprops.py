#!/usr/bin/env python3
# Source of properties.jsonl (kept in one readable place). Run: python3 tools/mkprops.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Vocabulary ids are dense and stable, frequencies are exact",
 "After any sequence of additions, each distinct word has exactly one id, ids are 0..n-1 in order of first appearance, looking a word up and looking its id up are inverse to each other, and a word's frequency is exactly the number of times it was added. Adding words never changes the id or spelling of an existing entry, and words never added (or ids past the end) are reported as unknown with frequency 0.",
 ["inputs","histories"],"every sequence of Add calls with any words (any strings, any repetition), every later lookup",
 "No test runs the dictionary at all; the guarantee is an invariant over every history of additions, which sampling cannot settle.",
 ["pkg/corpus/dictionary/dictionary.go"],
 [("Dictionary.Add","pkg/corpus/dictionary/dictionary.go"),("Dictionary.ID/Word/IDFreq/WordFreq/Len","pkg/corpus/dictionary/dictionary.go")],
 [("word2id,id2word,cfs,maxid","bijection and counts","dictionary.Dictionary")],["ID","Word","IDFreq","WordFreq","Len"])
p("C02","Loading a corpus records exactly the words of the text",
 "After a successful load, the corpus length is the number of whitespace-separated words of the text, the vocabulary is exactly those words (lower-cased when lower-casing is requested) numbered in order of first appearance with exact counts, and the in-memory mode keeps the id sequence of the text in order. The streaming and the in-memory mode give the same length and vocabulary, verbosity does not influence the result, and a read error is returned instead of a silently shortened corpus.",
 ["inputs","configurations","fault_sequences"],"every text, both storage modes, both lower-casing settings, both verbosity settings, a read error at any point",
 "Neither corpus implementation is executed by any test; the claim ranges over all texts and over the position of a read failure.",
 ["pkg/corpus/memory/memory.go","pkg/corpus/fs/fs.go","pkg/corpus/cpsutil/cpsutil.go"],
 [("Corpus.Load (memory)","pkg/corpus/memory/memory.go"),("Corpus.Load (fs)","pkg/corpus/fs/fs.go"),("ReadWord","pkg/corpus/cpsutil/cpsutil.go")],
 [("maxLen","number of words read","memory.Corpus, fs.Corpus"),("idoc","word ids in text order","memory.Corpus")],["Len","Dictionary","IndexedDoc"])
p("C03","Frequency filtering keeps exactly the admissible words, in order",
 "The document used for training is the text's word sequence with exactly those occurrences removed whose word is rarer than the minimum count, or more frequent than the maximum count when a positive maximum is set; order and multiplicity of the others are kept. In streaming mode the batches, concatenated in the order sent, are that same filtered document, every batch has at most the batch size and is not modified after it was sent, and the stream is closed after the last batch even if reading fails.",
 ["inputs","configurations","fault_sequences"],"every text, every min/max count, every batch size >= 1, a read error at any point",
 "No test covers filtering or batching; off-by-one and batch-boundary errors only show for particular lengths/batch sizes.",
 ["pkg/corpus/cpsutil/cpsutil.go","pkg/corpus/memory/memory.go","pkg/corpus/fs/fs.go","pkg/corpus/filter/options.go"],
 [("Filters.Any, MaxCount, MinCount","pkg/corpus/cpsutil/cpsutil.go"),("IndexedDoc","pkg/corpus/memory/memory.go"),("BatchWords","pkg/corpus/fs/fs.go")],
 [],["IndexedDoc","BatchWords"])
p("C04","Co-occurrence counts equal the windowed pair counts of the text",
 "With increment counting, the weight recorded for each unordered pair of words is exactly the number of position pairs at most the window size apart that hold these two words, and no other pair has an entry; with proximity counting each such position pair contributes the reciprocal of its distance. The result is the same whether the text is streamed or held in memory, with or without lower-casing and at any verbosity.",
 ["inputs","configurations"],"every text, every window size >= 0, both storage modes, both counting types",
 "Tests check one 5-word text with window 2 through one helper; the tail of the text, short texts, larger windows, lower-casing and repeated words are unreached.",
 ["pkg/corpus/cooccurrence/cooccurrence.go","pkg/corpus/memory/memory.go","pkg/corpus/fs/fs.go","pkg/corpus/cpsutil/cpsutil.go"],
 [("Cooccurrence.Add","pkg/corpus/cooccurrence/cooccurrence.go"),("Load: window loops","pkg/corpus/memory/memory.go, pkg/corpus/fs/fs.go"),("ReadWordWithForwardContext","pkg/corpus/cpsutil/cpsutil.go")],
 [("ma","weight per encoded pair","co.Cooccurrence")],["EncodedMatrix"])
p("C05","Word-pair keys are symmetric, unambiguous and decodable",
 "For all word ids below 2^32, the key of a pair does not depend on the order of the two words, different unordered pairs have different keys, and decoding a key gives back exactly the two ids, the smaller first.",
 ["inputs"],"all pairs of ids in [0,2^32)^2",
 "2^64 inputs; the tests encode a single pair and never decode.",
 ["pkg/corpus/cooccurrence/encode/encode.go"],
 [("EncodeBigram/DecodeBigram","pkg/corpus/cooccurrence/encode/encode.go")],[],["EncodeBigram","DecodeBigram"])
p("C06","Training work is divided without gaps, overlaps or skew",
 "For any number of workers >= 1 and any amount of data, the computed boundaries start at 0, end at the data size and never decrease, so the per-worker ranges cover every item exactly once; range sizes differ by at most one. In every training iteration each worker is started on exactly its range, and a worker visits every element of its range exactly once, in order, and reports each one.",
 ["inputs","configurations"],"all worker counts >= 1 and data sizes >= 0 (below 2^53), all documents",
 "The partition arithmetic and the worker loops are not executed by any test; errors appear only for particular remainders.",
 ["pkg/model/modelutil/modelutil.go","pkg/model/word2vec/word2vec.go","pkg/model/glove/glove.go","pkg/model/lexvec/lexvec.go"],
 [("IndexPerThread","pkg/model/modelutil/modelutil.go"),("train/trainPerThread","pkg/model/*/")],[],["IndexPerThread","progress signals"])
p("C07","Parameter matrix rows are disjoint, in bounds and initialised once",
 "A matrix created with given row and column counts has exactly those counts, and each row is a slice of exactly column-count values; distinct rows share no element, so writing through one row never changes another, and all rows together are the whole storage. Creation calls the initialiser exactly once per row, with that row's index and that row's storage.",
 ["inputs"],"all row/column counts >= 0, all row indices, all writes through rows",
 "No test constructs a matrix; disjointness is a statement about all index pairs.",
 ["pkg/model/modelutil/matrix/matrix.go"],
 [("New, Slice, startIndex","pkg/model/modelutil/matrix/matrix.go")],[("array,row,col","row-major storage","matrix.Matrix")],["Slice","Row","Col"])
p("C08","Saving writes the complete vector file or reports an error",
 "Saving writes one line per vocabulary word in id order, consisting of the word, then its vector's components in order with six decimals, each followed by one space, and nothing else. It returns no error only if the destination accepted all of it, and it refuses (writing nothing) a vector table whose row count differs from the vocabulary size; verbosity does not change the output.",
 ["inputs","fault_sequences"],"every vocabulary, every table, a write error at any byte of the destination",
 "Saving is not executed by any test; a failing destination least of all.",
 ["pkg/model/modelutil/vector/vector.go"],[("Save","pkg/model/modelutil/vector/vector.go")],[],["bytes written","returned error"])
p("C09","Loading vectors accepts exactly well-formed lines and keeps them all",
 "Loading a vector file yields one embedding per line, in order, with the line's first field as word, the numbers after it as vector, their count as dimension and the Euclidean norm of the vector as norm; lines starting with a space are ignored. If any other line has no number or a malformed number, or reading fails, an error is returned and no embeddings.",
 ["inputs","fault_sequences"],"every input text (lines of any length), a read error at any point",
 "Tests load one four-line text and check only the count.",
 ["pkg/embedding/embedding.go","pkg/embedding/embutil/embutil.go"],
 [("Load, parse, parseLine, Validate","pkg/embedding/embedding.go")],[],["Load"])
p("C10","Saved vectors can be loaded back unchanged",
 "Loading what was saved succeeds for every non-empty-dimension model and returns the vocabulary's words in id order, each with the full dimension and every component equal to the trained one rounded to six decimals.",
 ["inputs"],"every vocabulary of whitespace-free words, every table of finite values with at least one column (any dimension)",
 "No test connects saving and loading; it must hold for all words, values and dimensions.",
 ["pkg/model/modelutil/vector/vector.go","pkg/embedding/embedding.go"],
 [("Save","pkg/model/modelutil/vector/vector.go"),("Load, parseLine","pkg/embedding/embedding.go")],[],["Save then Load"])
p("C11","Nearest-neighbour search returns the true top k, sorted and ranked",
 "For any collection and query, the search returns the k candidates with the highest positive cosine similarity to the query (all of them, if fewer than k have positive similarity; none for k <= 0), in order of decreasing similarity, ranked 1,2,3,..., each with its own similarity. The query word itself and explicitly ignored words are never returned, no blank entry and no item twice is returned, and searching for an unknown word is an error.",
 ["inputs"],"every collection of equal-dimension embeddings, every query vector, every k, every set of ignored words",
 "Tests use k=1 on four items; fewer matches than k, ties, k=0 and displacement of several entries are unreached.",
 ["pkg/search/search.go"],[("Searcher.Search/SearchInternal/SearchVector","pkg/search/search.go")],[],["Search","SearchInternal","SearchVector"])
p("C12","Cosine similarity and norm are the mathematical ones",
 "The norm of a vector is the square root of the sum of squares of its components, and the similarity of two vectors is their dot product divided by both norms, or 0 when either norm is 0. It is symmetric and (up to rounding) lies between -1 and 1; neither computation modifies its inputs.",
 ["inputs"],"all vectors of equal length, of any length",
 "Tests evaluate one vector pair and one norm.",
 ["pkg/search/searchutil/searchutil.go","pkg/embedding/embutil/embutil.go"],
 [("Cosine","pkg/search/searchutil/searchutil.go"),("Norm","pkg/embedding/embutil/embutil.go")],[],["Cosine","Norm"])
p("C13","Console vector arithmetic is elementwise and fails loudly",
 "In the console, `a + b` and `a - b` search with the elementwise sum or difference of the two words' vectors, in that order, and exclude both words from the result. An unknown word, an operator other than + and -, vectors of different lengths or an unsupported expression is reported and yields no neighbours; after every evaluated line the session's operands and query vector are reset, the stored vectors are unchanged.",
 ["inputs","histories"],"every input line, every vocabulary, any sequence of lines",
 "The console package has no tests; the claim covers every expression and every history of lines.",
 ["pkg/search/console/console.go","pkg/search/console/op.go"],
 [("eval, evalExpr, evalBinaryExpr, evalAsEmbedding","pkg/search/console/console.go"),("elementWise, add, sub","pkg/search/console/op.go")],[("cursor","operands and query vector","console.Console")],["printed neighbours","returned error"])
p("C14","GloVe trains once on every co-occurring pair with the right weight",
 "The GloVe training set has exactly one item per recorded co-occurring word pair, carrying the pair's two word ids, the logarithm of its weight as target, and the loss weight (x/xmax)^alpha for x < xmax and 1 otherwise. Building it changes no recorded weight, and verbosity has no influence.",
 ["inputs","configurations"],"every co-occurrence table, every alpha and xmax",
 "GloVe is not executed by any test.",
 ["pkg/model/glove/item.go"],[("makeItems","pkg/model/glove/item.go")],[],["items"])
p("C15","A GloVe update is a weighted least-squares step on two rows only",
 "One GloVe update moves the two addressed parameter rows, both from their values before the update, by the gradient of coef*(w1.w2 + b1 + b2 - target)^2/2 times the learning rate (for AdaGrad scaled per component by the inverse square root of the accumulated squared gradients, which only grow). No other parameter or accumulator changes and no access is out of bounds.",
 ["inputs"],"all parameter values, all distinct row pairs, all dimensions, both solvers",
 "GloVe is not executed by any test.",
 ["pkg/model/glove/solver.go","pkg/model/glove/glove.go"],[("stochastic.trainOne","pkg/model/glove/solver.go"),("adaGrad.trainOne","pkg/model/glove/solver.go"),("trainPerThread","pkg/model/glove/glove.go")],[("param,gradsq","parameters and accumulated squares","glove, adaGrad")],["parameter rows"])
p("C16","LexVec targets follow the configured relation",
 "For every recorded pair the LexVec target is the weight itself (collocation), its logarithm (log-collocation), the smoothed pointwise mutual information log x - log f1 - log f2^s + log N^s of the pair (PMI), or that value cut off below at 0 (PPMI, so never negative). Exactly the recorded pairs have a target, the recorded weights are not changed, and an unknown relation is an error.",
 ["inputs","configurations"],"every co-occurrence table, frequency table, smoothing exponent and relation name",
 "LexVec is not executed by any test.",
 ["pkg/model/lexvec/item.go"],[("makeItems, calculateRelation","pkg/model/lexvec/item.go")],[],["items"])
p("C17","A LexVec update is a least-squares step on two rows only",
 "One LexVec update moves the two addressed rows, both from their values before the update, by the learning rate times the gradient of (u.v - target)^2/2, and changes no other row. Training at a position updates only pairs formed by the word at that position with the words in its window or with sampled words, each with that pair's own target (0 for pairs never seen), with all accesses in bounds.",
 ["inputs"],"all parameter values, row pairs, dimensions, documents, positions, window sizes",
 "LexVec is not executed by any test.",
 ["pkg/model/lexvec/lexvec.go"],[("update, trainOne","pkg/model/lexvec/lexvec.go")],[("param","word and context rows","lexvec")],["parameter rows"])
p("C18","A negative-sampling update is the logistic gradient step",
 "One negative-sampling update treats the given word as the single positive example and each sampled different word as a negative one: the context row of each moves by learning rate * (label - sigmoid(inner product)) times the hidden vector, and the hidden-vector correction accumulates the same factor times the context row's value before that move (saturated sigmoid: 0 below, 1 above the table range). Nothing else changes, samples are always valid word ids, and no access is out of bounds.",
 ["inputs","histories"],"all vectors, words, sample counts, random draws, learning rates",
 "The optimiser is not executed by any test.",
 ["pkg/model/word2vec/optimizer.go","pkg/model/modelutil/modelutil.go"],[("negativeSampling.optim","pkg/model/word2vec/optimizer.go"),("NextRandom","pkg/model/modelutil/modelutil.go")],[],["context rows","correction vector"])
p("C19","A hierarchical-softmax update is the logistic gradient step on the path",
 "One hierarchical-softmax update walks the given word's tree path from the root; at each inner node it moves the node's vector by learning rate * (1 - branch - sigmoid(inner product)) times the hidden vector and accumulates the same factor times the node vector's value before that move, where branch is the code of the next node on the path. It stops at the first saturated inner product, changes nothing outside the path's inner nodes and the correction vector, and never goes out of bounds; a depth limit of 0 means the full path.",
 ["inputs","configurations"],"all trees, words, vectors, depth limits >= 0, learning rates",
 "The optimiser is not executed by any test.",
 ["pkg/model/word2vec/optimizer.go","pkg/corpus/dictionary/node/node.go"],[("hierarchicalSoftmax.optim","pkg/model/word2vec/optimizer.go"),("Node.GetPath","pkg/corpus/dictionary/node/node.go")],[],["node vectors","correction vector"])
p("C20","The word tree is a proper Huffman tree",
 "For every vocabulary the coding tree has one leaf per word carrying its frequency, a single root reached from every leaf, and every inner node has exactly two children with branch codes 0 and 1, a weight equal to the sum of its children's and a zeroed vector of the requested dimension; each merge joins two nodes of least weight, so word codes are prefix-free and of minimal total weighted length. The path of a word runs from the root to its leaf, truncated to the depth limit when one is set, and asking again gives the same path.",
 ["inputs"],"all frequency tables (any size, ties included), all dimensions, all depth limits >= 0",
 "Tree construction is not executed by any test.",
 ["pkg/corpus/dictionary/huffman.go","pkg/corpus/dictionary/node/node.go"],[("HuffnamTree","pkg/corpus/dictionary/huffman.go"),("GetPath","pkg/corpus/dictionary/node/node.go")],[("Parent,Code,Val,Vector,cache","tree links","node.Node")],["Parent","Code","Val","GetPath"])
p("C21","The sigmoid table never goes out of range and approximates sigmoid",
 "For every input strictly between -6 and 6, including values adjacent to the limits, the lookup succeeds and returns a value strictly between 0 and 1 that never decreases as the input grows and differs from the logistic function by less than 0.004.",
 ["inputs"],"all float64 inputs in the open interval (-6,6)",
 "The existing test checks one input with an assertion that is always true; the failing input is a single float64.",
 ["pkg/model/word2vec/sigmoid_table.go"],[("newSigmoidTable, sigmoid","pkg/model/word2vec/sigmoid_table.go")],[],["sigmoid"])
p("C22","Context windows never leave the document, the window or skip a neighbour",
 "Training at a position uses a window half-width drawn from 1 to the configured size, and uses as context exactly the positions of the document within that distance, excluding the position itself, each once. CBOW updates exactly the words whose vectors it summed; skip-gram makes one update per context word with a cleared correction vector; nothing outside the rows of these words (and the optimiser's state) changes.",
 ["inputs","histories"],"all documents, positions, window sizes >= 1, random draws",
 "No training step is executed by any test.",
 ["pkg/model/word2vec/model.go","pkg/model/lexvec/lexvec.go"],[("skipGram.trainOne","pkg/model/word2vec/model.go"),("cbow.trainOne, dowith, aggregate, update","pkg/model/word2vec/model.go"),("lexvec.trainOne","pkg/model/lexvec/lexvec.go")],[],["rows passed to the optimiser","parameter rows"])
p("C23","The learning rate stays between the configured minimum and initial rate",
 "At every moment of word2vec and LexVec training, the learning rate in use is at least the configured minimum and at most the configured initial rate (given minimum <= initial), and it is re-computed as the linearly decayed initial rate, cut off at the minimum, whenever the number of processed words is a multiple of the update interval, and at no other time.",
 ["inputs","histories"],"all processed-word counts up to the corpus length, all initial/minimum rates, all update intervals >= 1",
 "The schedule is not executed by any test; the violation shows only near the end of a pass.",
 ["pkg/model/word2vec/word2vec.go","pkg/model/lexvec/lexvec.go"],[("observe","pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go")],[("currentlr","learning rate in use","word2vec, lexvec")],["currentlr"])
p("C24","Subsampling probabilities are well-formed and favour rare words",
 "Each word's subsampling value is 1 - sqrt(threshold/frequency), cut off below at 0, hence in [0,1], depends on nothing but that word's frequency and the threshold, and exists for every vocabulary word. A more frequent word is never kept for training with higher probability than a rarer one.",
 ["inputs","configurations"],"all frequency tables, all thresholds >= 0 and words",
 "Subsampling is not executed by any test.",
 ["pkg/model/modelutil/subsample/subsample.go"],[("New, Trial","pkg/model/modelutil/subsample/subsample.go")],[("samples","per-word value","subsample.Subsampler")],["Trial"])
p("C25","Options and command-line flags set exactly what they name",
 "Each functional option sets the setting it names to the given value and leaves every other setting as it was; options are applied in order over the documented defaults. Each command-line flag of the training commands is bound to the setting it names and, when not given, leaves it at the same default the library uses.",
 ["inputs","configurations"],"all option values, all subsets and orders of options, all flags",
 "No option or flag is exercised by any test.",
 ["pkg/model/word2vec/options.go","pkg/model/glove/options.go","pkg/model/lexvec/options.go"],[("DefaultOptions, LoadForCmd, ModelOption functions","pkg/model/*/options.go"),("New","pkg/model/*/")],[],["Options"])
p("C26","Exported word vectors are the trained rows of the requested kind",
 "The exported table has one row per vocabulary word and the configured dimension; for the single kind row i is word i's own trained vector, for the aggregated kind it is the sum of word i's word vector and context vector (word2vec with hierarchical softmax has no context vectors and exports the word vector). Exporting changes no trained parameter, and later training or writes to the export do not affect each other.",
 ["inputs","configurations"],"all parameter values, vocabularies, dimensions, the three models and both kinds",
 "No export is executed by any test.",
 ["pkg/model/glove/glove.go","pkg/model/lexvec/lexvec.go","pkg/model/word2vec/word2vec.go"],[("WordVector","pkg/model/{glove,lexvec,word2vec}/")],[],["WordVector"])
p("C27","Training commands never overwrite an existing output file",
 "A training command whose output path already exists fails without touching that file, and one whose input does not exist fails without creating an output file or directory. Only after both checks is the output created and the input opened, and training or saving errors are returned to the caller.",
 ["inputs","configurations","fault_sequences"],"all input/output paths, all outcomes of the file-system calls, the three training commands",
 "No command is executed by any test.",
 ["cmd/model/word2vec/word2vec.go","cmd/model/glove/glove.go","cmd/model/lexvec/lexvec.go"],[("execute, fileExists","cmd/model/*/")],[],["files on disk","exit status"])
p("C28","Unknown configuration names are rejected, never silently replaced",
 "Training with an unknown model, optimiser, solver, relation or counting type returns an error and trains nothing; each known name selects exactly its own implementation.",
 ["inputs","configurations"],"all strings for each of the five choice settings",
 "Only the counting type's error is tested, for one string; no selection is tested.",
 ["pkg/model/word2vec/word2vec.go","pkg/model/glove/glove.go","pkg/model/lexvec/item.go","pkg/corpus/cooccurrence/cooccurrence.go"],[("Train","pkg/model/*/"),("New","pkg/corpus/cooccurrence/cooccurrence.go")],[],["returned error"])
p("C29","Parallel training finishes and loses no update signal on any schedule",
 "For every interleaving of the worker goroutines, each training iteration terminates, every document word is processed once, and the progress observer sees every signal before the next iteration's counters start.",
 ["schedules"],"all interleavings of workers, batch producer and observer",
 "Tests start no training; the claim is over schedules.",
 ["pkg/model/word2vec/word2vec.go","pkg/model/glove/glove.go","pkg/model/lexvec/lexvec.go"],[("train, batchTrain, trainPerThread, observe","pkg/model/*/")],[],["termination"])
p("C30","Trained vectors place words used alike close together",
 "On a natural-language corpus, words that occur in similar contexts end up with higher cosine similarity than unrelated words.",
 ["inputs","schedules"],"all sufficiently large natural corpora, all random seeds",
 "A statistical statement over data and randomness; tests train nothing.",
 ["pkg/model/word2vec/word2vec.go","pkg/model/glove/glove.go","pkg/model/lexvec/lexvec.go"],[("Train","pkg/model/*/")],[],["similarities"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x,ensure_ascii=False))
