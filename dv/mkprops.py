#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

B=["src/bloom_filter.hpp"]
p("C01","A Bloom filter never forgets an element that was added",
 "Once an element has been added to a Bloom filter, every later lookup of that element answers yes until the filter is cleared or overwritten, whatever other elements are added or looked up in between. This holds for every filter size, every number of hash functions and every list of hash functions whose results lie inside the filter, and for both the by-value and by-pointer forms of the calls.",
 ["inputs","histories","configurations"],"every filter size and hash count, every list of in-range hash functions, every history of add/lookup after the add",
 "The tests add a handful of integers to a few filters of fixed size; the claim ranges over every hash function and every history.",B,
 [("add / set_bit_to_one","src/bloom_filter.hpp"),("lookup / get_bit","src/bloom_filter.hpp")],
 [("bits","one cell per filter position","src/bloom_filter.hpp")],["BloomFilter::add","BloomFilter::lookup"])
p("C02","A Bloom filter lookup answers exactly from the positions that were set",
 "A lookup answers yes exactly when every hash position of the element has been set by an add, or was set in the loaded array, since the filter was last created, cleared or loaded; in particular a new or cleared filter answers no to every element. An add sets the element's positions and changes no other position, a load makes the filter equal to the given array, and a lookup changes nothing.",
 ["inputs","histories","configurations"],"every filter size, hash list, loaded array, element and prior history",
 "Tests check a few members and non-members; exactness of every position and of every loaded array is a quantified statement.",B,
 [("constructor / clear / set","src/bloom_filter.hpp"),("lookup","src/bloom_filter.hpp")],
 [("bits","one cell per filter position","src/bloom_filter.hpp")],["BloomFilter::lookup","BloomFilter::clear","BloomFilter::set"])

K=["src/cuckoo_filter.hpp"]
p("C03","A successful cuckoo add stores one copy and loses none",
 "When an add to a cuckoo filter reports success, the filter holds exactly one more copy of the added element's fingerprint in that element's two candidate buckets, and every other element still has exactly as many copies in its own two candidate buckets as before, even when entries were kicked out and moved to make room. Hence while every add has reported success, every element added and not removed is found.",
 ["inputs","histories","configurations"],"every bucket count (power of two), bucket size, entry width 1 to 8, fingerprint/hash functions with in-range results, random draws in [0,1), and every prior filter content",
 "The tests use one filter shape with one hash; whether displacement chains ever drop or duplicate an entry depends on contents and random draws no test enumerates.",K,
 [("add (displacement loop)","src/cuckoo_filter.hpp"),("get_entry / set_entry bit packing","src/cuckoo_filter.hpp")],
 [("filter","packed fingerprints","src/cuckoo_filter.hpp")],["CuckooFilter::add","CuckooFilter::lookup","CuckooFilter::remove"])
p("C04","A cuckoo remove deletes exactly one copy and nothing else",
 "Removing an element that is reported present deletes exactly one stored copy of its fingerprint from one of its two candidate buckets and leaves every other entry of the filter unchanged; removing an element that is not present changes nothing. A lookup answers yes exactly when one of the element's two candidate buckets holds its fingerprint, and changes nothing.",
 ["inputs","histories","configurations"],"every filter shape, entry width 1 to 8, content, element and in-range hash functions",
 "Tests remove a few elements and look at those elements only; the frame over all other entries and packings is never examined.",K,
 [("search / remove","src/cuckoo_filter.hpp"),("set_entry bit packing","src/cuckoo_filter.hpp")],
 [("filter","packed fingerprints","src/cuckoo_filter.hpp")],["CuckooFilter::remove","CuckooFilter::lookup"])
p("C05","A new or cleared cuckoo filter is empty and an add uses free space",
 "A newly created or cleared cuckoo filter has every entry empty, whatever value is chosen to represent an empty entry, so it reports no element as present. An add whose element has a free entry in either candidate bucket succeeds and fills one such free entry without moving or changing any other entry.",
 ["inputs","configurations","histories"],"every filter shape, entry width 1 to 8, empty-entry value representable in the entry width, content and element",
 "All tests use the default empty value and filters that are far from full.",K,
 [("constructor / clear","src/cuckoo_filter.hpp"),("space_in_bucket / add","src/cuckoo_filter.hpp")],
 [("filter","packed fingerprints","src/cuckoo_filter.hpp")],["CuckooFilter::add","CuckooFilter::clear","CuckooFilter::lookup"])

U=["src/utils.hpp"]
p("C06","Sampling helpers draw from exactly the distribution they are given",
 "Turning an array of non-negative weights with a positive total into probabilities yields at each index the sum of all weights up to that index divided by the total (the caller's total when it is not negative, otherwise the computed one). Picking from a cumulative distribution returns the first index whose cumulative probability is greater than the uniform draw, so an index of zero probability is never picked, and returns the array size when there is none. The exponential draw for a rate r and uniform draw u is -ln(1-u)/r.",
 ["inputs"],"every array, size, total, rate and uniform draw in [0,1)",
 "Tests check one array and sample averages within wide tolerances.",U,
 [("turn_array_into_probability, pick_from_distribution, rand_exponential","src/utils.hpp")],(),["Utils static functions"])
p("C07","Array and arithmetic helpers match their mathematical definition",
 "The index-of-maximum helper returns the first index holding the greatest value; shuffling leaves the array a permutation of what it was, whatever the random draws, and touches nothing outside it. Minimum, maximum and absolute value are exact, rounding goes to the nearest integer with halves away from zero, and integer division truncates toward zero.",
 ["inputs"],"every array content and size, every sequence of uniform draws in [0,1), every number",
 "Tests exercise a few values; a permutation claim over all draws cannot be sampled.",U,
 [("index_max, shuffle, min, max, abs, round, div_int","src/utils.hpp")],(),["Utils static functions"])

L=["src/ltc.hpp"]
p("C08","LTC transmits exactly when no line fits, in timestamp order",
 "Adding a point reports a transmission exactly when no straight line from the last kept point can pass within the tolerance of every point added since (the admissible cone and the new point's clamped tolerance interval do not meet), and never for the first two points of the stream. On a transmission the value read back is the previously kept point, the first transmission is the first point of the stream, and successive transmitted timestamps strictly increase when input timestamps do.",
 ["inputs","histories","configurations"],"every stream of increasing timestamps and in-range integer values, every tolerance, value range and spacing",
 "Tests replay two fixed streams with unit-spaced timestamps.",L,
 [("need_transmit / add","src/ltc.hpp")],
 [("UL, LL, last_transmit_point","the admissible cone","src/ltc.hpp")],["LTC::add","LTC::get_value_to_transmit"])
p("C09","LTC reconstruction stays within the tolerance of every input",
 "Joining consecutive kept points of an LTC stream by straight lines gives, at the timestamp of every point that was added between them, a value within the tolerance of the value that was added, plus at most one for rounding the kept value to the integer element type. This holds for any increasing timestamps, not only for unit spacing.",
 ["inputs","histories","configurations"],"every stream of increasing timestamps and integer values inside the value range, every tolerance",
 "Tests compare two fixed streams against recorded transmissions and never reconstruct the signal.",L,
 [("need_transmit / add","src/ltc.hpp")],
 [("UL, LL, last_transmit_point","the admissible cone","src/ltc.hpp")],["LTC::add","LTC::get_value_to_transmit"])

R=["src/reservoir_sampling.hpp"]
p("C10","Reservoir sampling keeps each element with the textbook rule",
 "The reservoir of size k stores its first k elements in order, and accepts the n-th element (n > k) exactly when the first uniform draw is below k/n, then replacing the slot floor(k times the second draw) (the last slot when that draw is 1). The returned index is -1 exactly when the element is not stored, otherwise a valid slot that now holds the element; every other slot is unchanged and the count grows by one per element.",
 ["inputs","histories"],"every element type value, reservoir size, number of elements seen before and uniform draws in [0,1]",
 "Tests look at one draw sequence; index range and acceptance rule must hold for every draw and counter.",R,
 [("ReservoirSampling::sample_index / add","src/reservoir_sampling.hpp")],
 [("counter","elements seen so far","src/reservoir_sampling.hpp")],["ReservoirSampling::add","ReservoirSampling::sample_index","ReservoirSampling::count","operator[]"])
p("C11","Exponential reservoir always stores and never leaves its bounds",
 "The biased reservoir stores every element: with f of its k slots filled it replaces the filled slot floor(f times the second draw) (the last filled slot when that draw is 1) when the first draw is below f/k, and otherwise fills the next free slot. The returned index is always a valid slot that holds the element, the count is the number of filled slots and never exceeds the size, and every other slot is unchanged.",
 ["inputs","histories"],"every fill level, reservoir size and uniform draws in [0,1]",
 "Tests look at one draw sequence; the bound must hold for every draw and fill level.",R,
 [("ExponentialReservoirSampling::sample_index / add","src/reservoir_sampling.hpp")],
 [("counter","filled slots","src/reservoir_sampling.hpp")],["ExponentialReservoirSampling::add","count"])
H=["src/chained_reservoir.hpp"]
p("C12","Chained reservoir add stores by the textbook rule and keeps chains",
 "The chained reservoir of size k stores its first k elements in order, and accepts the n-th element (n > k) as the new head of a valid slot exactly when the first uniform draw is below k/n, discarding that slot's waiting successors. When the element's ordinal is the successor awaited by a slot, the element is appended after the other successors waiting in that slot, and every other slot's head and successors are unchanged.",
 ["inputs","histories"],"every reservoir size, chain content, counter, uniform draws in [0,1] and positive timestamps (the first one may be zero)",
 "Tests follow one draw sequence with short chains.",H,
 [("add / push_on_chain / clear_chain","src/chained_reservoir.hpp")],
 [("sample, next","heads and awaited ordinals","src/chained_reservoir.hpp")],["ChainedReservoirSampling::add","operator[]"])
p("C13","Declaring timestamps obsolete promotes the first live successor",
 "After declaring a timestamp obsolete, every slot that holds any element newer than it exposes the first such element of its chain, followed by the rest of that chain in the same order, and no element at or before it remains in front of it. A slot with no newer element keeps its current head.",
 ["inputs","histories"],"every chain content and every timestamp declared obsolete (elements have positive timestamps, the first one may be zero)",
 "Tests use one short history; the shift must preserve order for chains of any length.",H,
 [("obsolete / shift_chain","src/chained_reservoir.hpp")],
 [("sample","chains","src/chained_reservoir.hpp")],["ChainedReservoirSampling::obsolete","operator[]"])

M=["src/metrics.hpp"]
p("C14","Error metric equals wrong over total in every scoring mode",
 "The error metric scores the number of wrong predictions divided by the number of updates; inverted it scores the number of right ones divided by the total, and in ratio mode the score is multiplied (inverted: divided) by the given tree size. Adding n errors counts n updates all wrong, and a reset forgets everything.",
 ["inputs","histories"],"every history of updates, increases and resets, and every scoring mode and tree size",
 "Tests check a few fixed sequences.",M,[("ErrorMetrics","src/metrics.hpp")],
 [("count, error_count","updates and errors","src/metrics.hpp")],["ErrorMetrics::score"])
p("C15","Kappa metric equals Cohen's kappa of the update history",
 "The kappa metric equals (T*D - S)/(T*T - S), where T is the number of updates, D the number of correct ones and S the sum over labels of the true count times the predicted count; the score is (1-kappa)/2, inverted (1+kappa)/2, multiplied (inverted: divided) by the tree size in ratio mode. Updating changes exactly the cell of the given true and predicted label, adding errors changes one wrong-prediction cell and the total, assignment makes an equal copy, and a new or reset metric has no updates.",
 ["inputs","histories","configurations"],"every label count of at least two, every confusion matrix, every scoring mode",
 "Tests use one small matrix.",M,[("KappaMetrics","src/metrics.hpp")],
 [("confusion, total","confusion matrix","src/metrics.hpp")],["KappaMetrics::kappa","KappaMetrics::score"])

N=["src/naive_bayes.hpp"]
p("C16","Naive Bayes training keeps exact weighted moments per label and feature",
 "After any sequence of positively weighted training points, the model holds for each label and feature exactly the total weight, the weighted mean and the weighted sum of squared deviations from that mean of the values trained under that label, and the exact weight of each label and of all points. Training one label leaves the statistics of every other label unchanged, and always reports success.",
 ["inputs","histories","configurations"],"every stream of points, labels and positive weights; every label and feature count",
 "Tests run one data file and compare accuracy.",N,[("GaussianEstimator::train / train","src/naive_bayes.hpp")],
 [("counters, label_weights, total_weights","sufficient statistics","src/naive_bayes.hpp")],["NaiveBayes::train","NaiveBayes::predict"])
p("C17","Naive Bayes prediction is the arg max of the reported log scores",
 "A prediction reports for each label the log of the label's share of the weight plus the logs of the Gaussian densities of its features (variance is the sum of squares over total weight minus one), and returns the first label whose score is the greatest. Asking for the scores does not change the prediction, and predicting changes nothing in the model.",
 ["inputs","histories","configurations"],"every model state and data point; every label and feature count",
 "Tests compare accuracy on one data set.",N,[("predict / probability_density","src/naive_bayes.hpp")],
 [("counters, label_weights, total_weights","sufficient statistics","src/naive_bayes.hpp")],["NaiveBayes::predict"])

C=["src/mc_nn.hpp"]
p("C18","MC-NN predicts the label of the nearest micro-cluster",
 "A prediction returns the label of an active micro-cluster whose centroid is at the smallest Euclidean distance from the data point, however far away it is, and returns the empty class exactly when there is no micro-cluster. Predicting changes nothing.",
 ["inputs","histories","configurations"],"every set of clusters, data point, feature count and cluster capacity",
 "Tests use data whose coordinates are small; distance extremes and ties are never tried.",C,[("predict / find_nearest_clusters","src/mc_nn.hpp")],
 [("clusters, active","the micro-clusters","src/mc_nn.hpp")],["MCNN::predict"])
p("C19","MC-NN reports the true number of clusters and when it is full",
 "The reported number of clusters always equals the number of micro-clusters in use and never exceeds the capacity, through insertions, splits, replacements and cleaning. Training reports failure only when the point's class has no cluster, every cluster is in use and the cleaning method forbids replacing one, and then no cluster is changed.",
 ["inputs","histories","configurations"],"every history of training calls, every capacity, cleaning method and threshold",
 "The count is checked by tests only on short histories without replacement or cleaning.",C,[("train / split / clean_low_performance_clusters","src/mc_nn.hpp")],
 [("active, count_active_cluster","slots in use","src/mc_nn.hpp")],["MCNN::count_clusters","MCNN::train"])
p("C20","MC-NN absorbs each point into the right micro-cluster only",
 "A training point of a class that has a cluster is absorbed by the nearest cluster of that class: its point count grows by one and its linear and squared sums of features and times grow by the point's. The cluster errors move toward splitting (both decrease) when the nearest cluster overall has another class and away from it (increase) otherwise; unless a split or a replacement is due, every other cluster is unchanged, and a point of a new class starts a cluster holding exactly that point.",
 ["inputs","histories","configurations"],"every model state, point, label, feature count and capacity",
 "Tests compare a few predictions.",C,[("train / incorporate / initialize","src/mc_nn.hpp")],
 [("clusters","sufficient statistics","src/mc_nn.hpp")],["MCNN::train","MCNN::predict"])

W=["src/perceptron.hpp"]
p("C21","The perceptron forward pass computes the network function",
 "A forward pass writes, for every neuron of every layer after the first, the activation of the weighted sum of the previous layer's outputs plus the bias weight, and copies the last layer to the caller's output. It changes no weight and reads each weight from the position defined by layer, neuron and input.",
 ["inputs","configurations"],"every layer count, layer sizes that fit, weights, inputs and activation function",
 "Tests run one or two fixed shapes.",W,[("feed_forward","src/perceptron.hpp")],
 [("weights, neuron_output","network state","src/perceptron.hpp")],["MultiLayerPerceptron::feed_forward"])
p("C22","Setting perceptron weights writes exactly the addressed weights",
 "Setting the weights of a neuron, of a layer or of the whole network stores the given values at exactly the positions the forward pass reads for that neuron, layer or network, in order with the bias last, and changes no other weight. Construction draws every weight from the random function and records the layer sizes and learning rate given.",
 ["inputs","configurations"],"every layer count, layer sizes that fit and weight array",
 "Tests set all weights of small fixed networks.",W,[("set_weights / get_weights / constructor","src/perceptron.hpp")],
 [("weights, layer_size","network state","src/perceptron.hpp")],["MultiLayerPerceptron::set_weights","get_weights"])
p("C23","Backpropagation changes every weight by minus rate times gradient",
 "After a forward pass, backpropagation towards an expected output changes every weight by minus the learning rate times its input times the error signal of its neuron, where the error signal of an output neuron is (output - expected) times the derivative at the output, and that of a hidden neuron is the derivative at its output times the weighted sum, with the weights before the update, of the signals of the next layer. It returns the mean squared error of the outputs.",
 ["inputs","configurations"],"every layer count, layer sizes that fit, weights, inputs and expected outputs",
 "Tests run a fixed network on fixed data.",W,[("backpropagate","src/perceptron.hpp")],
 [("weights, neuron_output","network state","src/perceptron.hpp")],["MultiLayerPerceptron::backpropagate","get_weights"])

T=["src/hoeffding_tree.hpp"]
p("C24","A Hoeffding leaf predicts from the exact label histogram it trained on",
 "A prediction routes the point left when its split feature is at most the split value and right otherwise until it reaches a leaf, reports for each label the fraction of the points counted at that leaf which had that label, and returns the first most frequent label. Predicting changes nothing.",
 ["inputs","histories","configurations"],"every tree, leaf content and data point",
 "Tests compare predictions on one data set.",T,[("sort_in_leaf / predict","src/hoeffding_tree.hpp")],
 [("buffer","nodes and counters","src/hoeffding_tree.hpp")],["HoeffdingTree::predict"])
p("C25","Training a Hoeffding leaf counts the point once per feature in its bin",
 "Training a leaf with a point adds exactly one to the leaf's point count and, for every feature, exactly one to the counter of the point's label in the bin that contains the feature's value according to the sorted limits, changes no other counter or limit, and widens the leaf's bounding box to contain the point and no further.",
 ["inputs","histories","configurations"],"every leaf state, number of bins per feature, data point and label",
 "Tests check counters only through predictions on one data set.",T,[("Node::train","src/hoeffding_tree.hpp")],
 [("buffer","counters and limits","src/hoeffding_tree.hpp")],["HoeffdingTree::train","Node::train"])
p("C26","The information gain of every candidate split is the textbook value",
 "For every feature and every candidate limit, the reported information gain is the entropy of the leaf's labels minus the average, weighted by the share of points, of the label entropies on the two sides of the limit, with empty sides contributing zero.",
 ["inputs","configurations"],"every histogram of labels and bins, every number of features, labels and bins",
 "Tests check a couple of hand-made histograms.",T,[("compute_information_gain / compute_entropy","src/hoeffding_tree.hpp")],
 [("buffer","counters","src/hoeffding_tree.hpp")],["Node::compute_information_gain"])
p("C27","A Hoeffding tree splits on the best limit, and survives a full buffer",
 "In a tree with at least two candidate limits, a leaf splits only when the accumulated average gain of its best candidate is positive and beats the second best by the Hoeffding bound, and then on the feature and the value that this best candidate limit belongs to. Every node and every leaf's counters occupy their own part of the tree's buffer; when the buffer has no room for a split the training call reports failure, and the tree keeps its structure.",
 ["inputs","histories","configurations"],"every leaf state, bin layout with at least two candidate limits in all, and buffer size that holds at least the first leaf",
 "Tests use buffers that never fill and bins that hide an index shift.",T,[("Node::train / split / operator new","src/hoeffding_tree.hpp")],
 [("buffer, buffer_offset, buffer_preset","allocation","src/hoeffding_tree.hpp")],["HoeffdingTree::train"])

O=["src/mondrian.hpp","src/mondrian_unbound.hpp"]
p("C28","Every Mondrian tree counts every training point at exactly one leaf",
 "After any sequence of training calls, in every tree of the forest the number of points with a given label summed over the tree's leaves equals the number of training calls with that label, including when the node pool is exhausted or allocation fails once the tree has a root. Each training call adds exactly one to exactly one leaf of each tree and reports success.",
 ["inputs","histories","configurations","fault_sequences"],"every stream of points and labels, every sequence of uniform draws, every pool size of at least one node per tree",
 "Tests look at predictions and structure after short fixed runs with ample memory.",O,[("train / extend_block / sample_block","src/mondrian.hpp, src/mondrian_unbound.hpp")],
 [("nodes, roots","tree structure and counters","src/mondrian.hpp")],["MondrianForest::train"])
p("C29","Mondrian trees stay well formed and their boxes contain their points",
 "Training keeps every tree well formed: children and parent references agree, an internal node has exactly two children, splitting times grow from parent to child, and each node's box contains every point trained through it and its children's boxes. Every split introduced lies between the new point and the node's previous box, so that the two are separated by it.",
 ["inputs","histories","configurations"],"every stream of points and sequence of uniform draws in [0,1)",
 "Tests check a few fixed trees.",O,[("extend_block / sample_block","src/mondrian.hpp, src/mondrian_unbound.hpp")],
 [("nodes","tree structure and boxes","src/mondrian.hpp")],["MondrianForest::train"])
p("C30","A Mondrian forest predicts the arg max of its averaged scores",
 "A prediction averages the posterior means of all trees, writes the average of each label to the caller's score array when one is given, and returns the first label with the greatest average. Predicting changes no leaf, box, split or tree structure.",
 ["inputs","histories","configurations"],"every forest state and data point, with and without a score array",
 "Tests compare the predicted labels on fixed data and never look at scores.",O,[("predict / predict_tree / update_posterior_count","src/mondrian.hpp, src/mondrian_unbound.hpp")],
 [("nodes","tree structure and counters","src/mondrian.hpp")],["MondrianForest::predict"])
p("C31","The coarse Mondrian forest never writes outside its byte budget",
 "The coarse (memory-bounded) Mondrian forest keeps every node of every tree inside its fixed byte buffer, no two nodes overlap, and training keeps returning and predicting valid labels when the buffer is full, whatever maintenance strategy (extension, trimming, splitting, tree addition and deletion) is configured.",
 ["inputs","histories","configurations"],"every stream, draw sequence, strategy and buffer size",
 "Tests run a few strategies on small data.",["src/mondrian_coarse.hpp"],[("node storage, extension and trimming strategies","src/mondrian_coarse.hpp")],
 [("buffer","nodes and tree bases","src/mondrian_coarse.hpp")],["CoarseMondrianForest::train","CoarseMondrianForest::predict"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
