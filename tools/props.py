#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
U='spn/utils.go'
p('C01','Every inference route returns the exact value of the network',
 'For every SPN that is a rooted acyclic graph (with shared sub-networks, zero weights, impossible leaves, or a single leaf) and every complete, partial or empty evidence, the value returned is the logarithm of the polynomial the graph denotes: a sum node is the weighted sum of its children, a product node is the product, a leaf is its own distribution. All ways of asking (evaluating a node directly, whole-graph inference, inference that takes one designated variable separately, and inference that stores every node\'s value in a table) agree with each other and, in the table, for every node. Asking never changes the network, the evidence or the answer to the next question, and after weights have been overwritten or children added the answers are those of the changed network.',
 ['inputs','programs'],'all small SPN graphs up to the node bound, all leaf kinds, all evidences over the scope (every variable unset or at each of its values), all nodes of the graph',
 'Tests check one or two hand-built networks; shared nodes, edge order, zero weights and unset variables interact combinatorially.',
 ['spn/utils.go','spn/sum.go','spn/product.go','spn/multinom.go','spn/gaussian.go','spn/indicator.go','utils/log.go','spn/topo.go'],
 [('log-space evaluation in children-first order','spn/utils.go Inference, InferenceY, StoreInference'),('recursive evaluation','spn/sum.go Value, spn/product.go Value'),('log-sum-exp','utils/log.go LogSumExp')],
 'return values of Value/Inference/InferenceY and stored table entries')
p('C02','A valid normalised network is a probability distribution',
 'For every complete and decomposable SPN with normalised weights and discrete leaves, the probabilities of all complete assignments add up to one. The value under partial evidence equals the sum of the values of all completions of that evidence, so a variable that is absent from the evidence is marginalised out. Adding evidence never increases the value.',
 ['inputs','programs'],'all valid SPNs up to the node bound over up to three variables, all partial evidences, all completions',
 'Marginal consistency is a statement about sums over all assignments; a test compares single values.',
 ['spn/utils.go','spn/sum.go','spn/product.go','spn/multinom.go','spn/indicator.go','spn/gaussian.go'],
 [('absent variable integrates to one','spn/multinom.go Value, spn/gaussian.go Value, spn/indicator.go Value')],
 'Value and Inference of partial and complete evidences')
p('C03','MAP queries return a state that attains the reported maximum and keep evidence',
 'For every SPN and evidence, the reported max value is the value of the best choice of one child per sum node, identical for all ways of asking. The returned assignment keeps every evidence value of the scope, assigns every other variable of a valid network, and reaches the reported maximum when its own max value is asked for (up to the rounding of continuous modes to integers), whichever of several tied alternatives is drawn. Impossible evidence never crashes the query.',
 ['inputs','programs','histories'],'all small SPNs incl. ties and zero weights, all evidences, all tie-break outcomes of the random generator',
 'Ties are broken at random and zero-probability branches are rare; a test sees one outcome of one network.',
 ['spn/utils.go','spn/sum.go','spn/product.go','spn/multinom.go','spn/gaussian.go','spn/indicator.go'],
 [('max-product pass and traceback','spn/utils.go StoreMAP, TraceMAP'),('recursive max and arg max','spn/sum.go Max, ArgMax; leaves Max, ArgMax')],
 'returned VarSet, value and per-node table entries')
p('C04','Traversals visit each node once and orderings put children before parents',
 'On every rooted acyclic graph each ordering routine delivers every reachable node exactly once with every child before all of its parents, whichever collection the caller supplies, and the variant with a callback reports nodes in exactly that order and stops right after the callback says so. Breadth-first and depth-first searches call back once per reachable node in breadth-first or stack order, do not descend below a node whose callback asks to skip, and stop when asked. Node counts by kind and the height of the graph equal those of the graph, as it is when asked.',
 ['inputs','programs'],'all rooted DAGs up to the node bound including shared children, all child orders, all callback verdict positions, queue and stack collections',
 'A wrong order only shows on particular sharing patterns; the tests use fixed graphs without them.',
 ['spn/topo.go','spn/search.go','spn/utils.go','spn/node.go'],
 [('iterative and recursive topological sorts','spn/topo.go TopSortTarjan, TopSortTarjanRec, TopSortTarjanFunc, TopSortDFS, PostOrder'),('search','spn/search.go BreadthFirst, DepthFirst, CountNodes'),('height','spn/utils.go ComputeHeight, spn/node.go Height')],
 'the collection and the callback sequence')
p('C05','Saving and loading a network preserves it exactly',
 'For every SPN, serialising it and reading it back (in memory or through a file, or learning-variable metadata through the same encoding) yields a network with the same shape, sharing, child order, scopes, weights and leaf parameters bit for bit, and hence the same value and max value for every evidence. Saving never changes the original, and saving the loaded copy gives the same network again. The textual dump of a network names every node once and lists the edges, weights and leaf parameters of that network.',
 ['inputs','programs'],'all small SPN graphs with all leaf kinds and a menu of awkward parameters (tiny, huge, repeating fractions, negative), all edge orders',
 'A round trip test with friendly numbers misses precision loss, sharing and order.',
 ['spn/serial.go','io/spn.go','spn/print.go','spn/sum.go','spn/multinom.go','spn/gaussian.go','spn/indicator.go','learn/variable.go'],
 [('node list plus adjacency encoding','spn/serial.go Marshal, Unmarshal'),('per-node encoding','GobEncode/GobDecode of every node kind and of Variable'),('file wrapper','io/spn.go SaveSPN, LoadSPN'),('text dump','spn/print.go PrintSPN')],
 'the decoded graph and the dump file')
p('C06','Validity tests and scopes judge the whole graph correctly',
 'For every SPN, the completeness test is true exactly when all children of each sum node in the graph have the same scope, and the decomposability test is true exactly when the children of each product node in the graph have pairwise disjoint scopes. The computed scope is the set of variables of all leaves below the node, without repetition. The verdicts and the computed scope are those of the graph as it is when asked, whatever was asked before nodes were added to it, and asking leaves parameters and shape untouched.',
 ['inputs','programs','histories'],'all small DAGs of sums, products and leaves over up to three variables, valid and invalid, in every order of queries',
 'Validity is universally quantified over nodes; tests look at a few graphs, mostly valid at the root.',
 ['spn/utils.go','spn/sum.go','spn/product.go'],
 [('scope propagation','spn/utils.go ComputeScope'),('verdicts','spn/utils.go Complete, Decomposable'),('lazy scopes','spn/sum.go Sc, spn/product.go Sc')],
 'boolean verdicts and scope slices')
p('C07','Stored derivatives are the true partial derivatives of the network',
 'For every SPN and evidence, the derivative stored for each node is the logarithm of the exact partial derivative of the root value with respect to that node, and the derivative stored for each weight is that with respect to the weight, however the graph shares sub-networks and whichever work list (queue or stack) is supplied. The batch variant accumulates the weight derivatives of the successive evidences. Counts of the hard derivative are one for each edge chosen on the MAP path of the evidence and accumulate over calls.',
 ['inputs','programs'],'all small SPNs with shared nodes and zero factors, all evidences, both work-list kinds, batches of up to three evidences',
 'Errors only appear for particular sharing and arrival orders; the test derives one tree.',
 ['learn/derive.go','spn/utils.go'],
 [('top-down derivative propagation','learn/derive.go DeriveSPN'),('weight derivatives','learn/derive.go DeriveWeights, DeriveWeightsBatch'),('hard derivatives','learn/derive.go DeriveHard')],
 'table entries after derivation')
p('C08','Generative learning applies exactly the documented gradient step',
 'For every network, data set and learning parameters, generative learning ends with the weights obtained by the defined steps: soft learning adds the rate times the exact derivative, hard learning adds the rate times MAP counts over the weight, batches average over the batch size, apply regularisation once per batch and do not lose a final incomplete batch, and each sum is normalised when asked. The number of passes, rate, batch size, hardness and normalisation are those bound to the network. Instances, leaves and shape are not altered, and weights stay a distribution when normalisation is on.',
 ['inputs','configurations','histories'],'small SPNs, all data sets up to three instances over the domain, all combinations of hardness, batch size, normalisation, iterations',
 'The tests only run learning and look at the result informally.',
 ['learn/generative.go','learn/derive.go','learn/parameters/parameters.go'],
 [('dispatch on bound parameters','learn/generative.go Generative'),('updates','learn/generative.go applyFastGD, applyFastHGD, applyHGD; learn/derive.go DeriveApplyWeights')],
 'Weights() of every sum after learning')
p('C09','Discriminative learning follows the conditional gradient',
 'For every network, labelled data set and learning parameters, discriminative learning ends with the weights obtained by stepping along the exact gradient of the conditional log-likelihood of the query variables given the rest (soft), or along the difference of MAP counts with and without the labels (hard), averaged over the batch with regularisation and normalisation as configured. All instances are afterwards as they were: their labels are back and values they lack are not made up. A final incomplete batch is applied.',
 ['inputs','configurations','histories'],'small SPNs with one or two query variables, all labelled data sets up to three instances, all combinations of hardness, batch size, normalisation and iterations',
 'There is no test of discriminative learning at all, and gradient errors only show numerically.',
 ['learn/discriminative.go','learn/derive.go'],
 [('conditional gradient','learn/discriminative.go applyDGD, storeDGD, applyDGDFrom'),('hard counts difference','learn/discriminative.go applyHDGD')],
 'Weights() of every sum after learning and the data set')
p('C10','The value table behaves like a map per ticket',
 'Whatever the sequence of operations, a stored value is returned for exactly the ticket, node and index it was stored under, until that ticket is reset or deleted, or everything is purged. A new ticket is fresh and distinct from every live ticket, and operations on one ticket never affect another. Lookups of things never stored report absence, and nothing crashes on unknown tickets.',
 ['histories'],'all sequences of operations up to the depth bound over two nodes, two indices and up to three tickets, including handles to tables taken earlier',
 'The table is a mutable store whose errors need a particular history of resets, deletes and tickets.',
 ['spn/storer.go'],[('ticketed tables','spn/storer.go NewTicket, Store, Entry, Reset, ResetTickets, Delete, Purge')],'return values of every operation')
p('C11','Queues and stacks keep order and lose nothing, also when they shrink',
 'Under every sequence of operations a queue is first-in first-out (with removal of the last element at the back) and a stack last-in first-out, indexed access and size agree with the contents, and inversion reverses the contents. Shrinking memory, automatically or on request, and resetting never lose, duplicate or reorder elements other than as asked. Collections share nothing with one another.',
 ['histories','configurations'],'all operation sequences up to the depth bound, with the shrink threshold set low so that it triggers at every position',
 'Shrinking happens only past 1024 elements under normal settings and interacts with removals at both ends.',
 ['common/queue.go','common/stack.go','common/collection.go'],[('slice-backed collections with shrink','common/queue.go, common/stack.go')],'return values of every operation and full contents')
p('C12','The concurrent job queue runs each job once, within its limit, and waits',
 'For every schedule, each submitted job runs exactly once with its own index, never more than the allowed number run at once, a submission blocks only while the limit is reached, and waiting returns only after every submitted job has finished and always does return. The queue can be reused after waiting. No schedule contains a data race or a deadlock, and a limit that is not positive means the number of processors.',
 ['schedules','histories'],'all interleavings up to the preemption bound of up to four jobs with limits one to three, jobs that synchronise, submitters in one or two threads, and reuse rounds',
 'Lost wake-ups and over-admission need particular interleavings that a test practically never meets.',
 ['conc/queue.go'],[('counting semaphore with condition variable and wait group','conc/queue.go Run, Wait')],'job start/finish events, return of Run and Wait')
p('C13','Concurrent classification gives the sequential result without races',
 'For every schedule, classifying a data set with the concurrent evaluator yields the same hits, misses and total and the same predicted label for every expected label, counted as a multiset, as the sequential one and as computing each instance by hand. The data set is left as it was. No interleaving contains a data race, deadlock or lost result.',
 ['schedules','inputs'],'all interleavings up to the preemption bound of small classification runs, plus all small data sets of every size',
 'Races on shared counters and slices appear only under particular schedules.',
 ['score/score.go','conc/queue.go'],[('chunked concurrent evaluation','score/score.go EvaluatePosteriorConc, Evaluate, EvaluatePosterior')],'the score object and the data set')
p('C14','Classification scores count exactly what was evaluated',
 'For every network and labelled data set, a score holds one record per instance with the expected label and the predicted one, the prediction being the label of a MAP state or, for posterior evaluation, a most probable label given the rest of the instance, and hits, misses, totals, confusion matrix and saved report match these records. Adding, merging and clearing scores do arithmetic on these records without one score changing when another does. Evaluating leaves the instances as they were, also those without a label.',
 ['inputs','histories'],'all data sets up to the size bound over small networks, all sequences of evaluate, add, merge and clear on two scores up to the depth bound',
 'Aliasing and bookkeeping errors need particular sequences of score operations.',
 ['score/score.go'],[('score records','score/score.go Score')],'score fields through its accessors and saved report')
p('C15','Splitting, joining and reshaping data sets neither lose nor alter instances',
 'For every data set and admissible proportions, each way of partitioning returns disjoint groups whose union is the data set, with group sizes that follow the proportions to within rounding (exactly where the proportion of the size is a whole number) and, for label-wise partitions, within each class; labels stay with their instances, and later changes to a group do not reach the original. Joining, merging, extracting or removing labels, subtracting a variable, copying and shuffling do what they say on every instance and leave inputs that they do not own unchanged. Comparison of data sets is true exactly for equal ones.',
 ['inputs','configurations','histories'],'all small data sets and label vectors, dyadic proportions, all outcomes of the random generator up to the bound',
 'Rounding leftovers and random draws make the partition depend on sizes and outcomes a test does not cover.',
 ['data/manipulate.go','data/datasets.go'],[('partitioning and reshaping','data/manipulate.go')],'returned data sets and the arguments after the call')
p('C16','The independence graph groups variables exactly by dependence',
 'For every data matrix, the sub-graphs returned are the connected components of the relation in which two variables are linked exactly when the pairwise independence test rejects at the given level, and they form a partition of the variables whatever their order. The test statistic and verdict are those of the likelihood-ratio (G) and chi-square tests computed from the contingency table of the two columns. The faster construction gives the same components as the full one.',
 ['inputs','configurations'],'all matrices up to the row bound over two to four variables with two or three categories, several significance levels, all variable orders',
 'Connectivity depends on all pairwise verdicts together; tests have no oracle.',
 ['utils/indep/indgraph.go','utils/indep/gtest.go','utils/indep/chisq.go','utils/unionfind.go'],[('pairwise tests','utils/indep/gtest.go GTest, utils/indep/chisq.go'),('components','utils/indep/indgraph.go NewIndepGraph, NewUFIndepGraph')],'components and test verdicts')
p('C17','Clustering partitions the instances it was given, unaltered',
 'For every data set, number of clusters and outcome of random choices, each clustering routine terminates and puts every instance in exactly one cluster (density-based ones may leave noise together in its own group), with each instance\'s values unchanged and its identity kept, also when instances repeat or take very few distinct values. No more than the requested number of clusters come back; mode, medoid and metric k-means methods put every instance with a nearest centre, and density methods never join instances that no chain of close neighbours connects, and keep instances that have enough close neighbours together with them instead of calling them noise.',
 ['inputs','configurations','histories'],'all small matrices with repeated rows, all numbers of clusters, all outcomes of the random generator up to the deviation bound',
 'Empty and duplicate clusters arise only for particular data and random draws.',
 ['utils/cluster/kmeans.go','utils/cluster/kmode.go','utils/cluster/kmedoid.go','utils/cluster/dbscan.go','utils/cluster/optics.go','utils/cluster/cluster.go'],[('clustering','utils/cluster')],'cluster maps')
p('C18','Structure learning always yields a valid normalised network over the variables',
 'For every data set and setting, the structure learned by splitting on independence and clustering is complete and decomposable, has exactly the given variables as its scope, normalised non-negative weights in proportion to cluster sizes, and leaves estimated from the data that reached them, so that it is a probability distribution. This holds for the discrete, Gaussian and concurrent variants and for every outcome of random choices and every schedule. The input data and scope are not modified.',
 ['inputs','configurations','schedules','histories'],'all small data sets (including constant columns, repeated rows, single instances) over two to three variables, settings, random outcomes up to the deviation bound',
 'The learner recurses on data dependent splits; odd data reach crashes or invalid structure that example data do not.',
 ['learn/gens/gens.go','utils/indep/indgraph.go','utils/cluster'],[('recursive splitting','learn/gens/gens.go Learn, LearnGauss, LearnConcurrent')],'the returned SPN')
p('C19','Region-graph structure learning yields a valid network over the image',
 'For every image-like data set and setting, the structure built from the clustering region graph is complete and decomposable, its scope is exactly the given variables, each sum has as many weights as children and weights form a distribution, every region but the whole has the requested number of sums, whose products pair the alternatives of its two disjoint parts, the distributions of a pixel follow the values the pixel takes in the data, and evaluating it on any instance gives a finite or minus-infinite log value, never an undefined one. The input data are not modified. It terminates for every outcome of random choices.',
 ['inputs','configurations','histories'],'small grids and data sets, all settings in the bound, random outcomes up to the deviation bound',
 'Region sharing depends on data; example runs use large images without an oracle.',
 ['learn/dennis/dennis.go','learn/dennis/graph.go','learn/dennis/region.go','learn/dennis/partition.go','learn/dennis/scope.go'],[('region graph','learn/dennis')],'the returned SPN')
p('C20','Rectangle decomposition numbers rectangles uniquely and yields a valid network',
 'For every image size and resolution, encoding and decoding rectangle coordinates are inverse to each other and distinct rectangles get distinct codes. The structure built from all axis-aligned decompositions is complete and decomposable over exactly the pixels, its sums have one weight per child, and learning on it keeps it valid and normalised. It never crashes when the resolution divides both sides of the image, including an image that is a single region, and the region of the whole image has exactly one sum, the root. Every product joins the two parts of a rectangle cut in two at a multiple of the resolution, no region has more sums than asked for, and the distributions of a pixel are fitted to the quantiles of the values it takes in the data.',
 ['inputs','configurations'],'all image sizes up to the bound, all rectangles, all resolutions, sums per region and gaussians per pixel, small data sets',
 'The test encodes one image size; overlap of codes and single-region images are not covered.',
 ['learn/poon/poon.go'],[('rectangle codes','learn/poon/poon.go Encode, Decode'),('decomposition','learn/poon/poon.go')],'codes and the returned SPN')
p('C21','Data files are read back as exactly what they contain',
 'For every data set, writing it in a supported text or binary format and parsing it gives the same variables, category counts and values in the same order, with labels attached to their own instances; classes of an ARFF file are numbered one to one. Partitioned reading splits the instances disjointly, with the number of test instances within one of the proportion asked for, removes the label from the test instances and returns it separately, and a seed taken up anew always gives the same partition. Missing or extra white space, blank lines, final newlines and lines of any length allowed by the format change nothing. The binary array reader returns, for every sequence of partial, whole, balanced and rewinding reads, the instances that come next in the file; reading past the end of the array or of the file is an error, and element types, orders or shapes it does not support are refused.',
 ['inputs','configurations','histories'],'all small data sets over the formats, white-space and end-of-file variants, seeds and proportions in the bound, all sequences of reads of the binary reader up to the depth',
 'Format errors hide in boundary characters and sizes; the only existing test needs a missing file.',
 ['io/input.go','io/arff.go','io/npy.go'],[('parsers','io/input.go ParseData, ParseDataNL, ParseEvidence, ParsePartitionedData; io/arff.go; io/npy.go')],'parsed scope and data')
p('C22','Image folders convert to data sets pixel by pixel',
 'For every folder of images, one sub-folder per class, conversion yields one instance per image with each pixel as the variable of its position, in row order, and the class as label, where the labels number the class folders one to one; stray files and the output of an earlier conversion are not mistaken for classes. Evidence conversion returns the pixels alone and says at which instance each class starts. The buffered concurrent conversion gives the same instances as the sequential one, in some order, for every schedule without races. The written data file parses back to the same instances.',
 ['inputs','schedules'],'all image sets up to two classes, unequal class sizes, sizes up to the bound, pixel values, white-space layouts; all interleavings up to the preemption bound of the buffered version',
 'No test covers conversion; concurrent collection order depends on schedules.',
 ['io/pgm.go','io/pbm.go','io/images.go'],[('conversion','io/pgm.go PGMFToData, PGMFToEvidence, BufferedPGMFToData; io/pbm.go')],'the files written and their parse')
p('C23','Shared random generator and parameter registry are safe and reproducible',
 'For every schedule, concurrent use of the shared random generator yields values in range, together exactly the stream determined by the seed, and never corrupts the generator; with the same seed sequential use repeats exactly. Parameters bound to a network are those retrieved, for it alone, until rebound or unbound; a network with none bound gets default parameters of its own, which changes made for other networks do not reach; and concurrent binding and retrieving is free of races. Random combinations are distinct cells within range.',
 ['schedules','histories'],'all interleavings up to the preemption bound of two to three threads of operations, all operation sequences up to the depth bound',
 'Races on a generator corrupt it silently and only under particular schedules.',
 ['sys/rand.go','learn/parameters/parameters.go'],[('mutex around the generator','sys/rand.go'),('mutex around bindings','learn/parameters/parameters.go')],'drawn values and retrieved parameters')
p('C24','Log-space arithmetic is exact and handles zero probability',
 'For every list of numbers, the log of a sum of exponentials equals the true value within floating-point tolerance, including when some or all terms are zero probability, when magnitudes differ hugely and whatever the order. Signed sums in log space return the right sign and magnitude. Logs, trimming and comparison helpers do what they say, and the log-sum routines leave the numbers given unchanged.',
 ['inputs'],'all vectors up to length four over a menu of values from minus infinity through denormal-range to large, all sign patterns',
 'Cancellation and infinities need particular combinations.',
 ['utils/log.go','common/math.go'],[('log-sum-exp','utils/log.go')],'returned values')
p('C25','Leaves and statistics estimated from counts match the data',
 'For every table of counts or values, the estimated leaf distributions are the add-one-smoothed frequencies, the uniform distribution, or the Gaussian with the mean (or mode) and deviation of the data, and are proper distributions. Quantile partitioning splits the ordered values into consecutive groups that together contain every value, with right means and deviations that are never zero or undefined. Sets merged by union have one representative and exactly the united members.',
 ['inputs','histories'],'all count vectors up to the length and value bound, all value lists and group numbers, all union sequences up to the bound',
 'Estimates are formulas over all inputs; no test covers them.',
 ['spn/multinom.go','spn/gaussian.go','utils/stats.go','utils/unionfind.go'],[('estimators','spn/multinom.go NewCountingMultinomial, spn/gaussian.go NewGaussian*, utils/stats.go PartitionQuantiles'),('union-find','utils/unionfind.go')],'leaf parameters and statistics')
p('C26','Normalisation makes every sum a distribution and changes nothing else',
 'For every network whose sums have at least one positive and no non-finite weight, normalising makes the weights of every reachable sum non-negative and add up to one. Non-negative weights keep their ratios; when some are negative all are shifted by the same amount first, so order is kept. Leaves, shape and sharing are untouched, and a shared sum is normalised once.',
 ['inputs','programs'],'all small graphs and weight vectors over a menu with zeros, negatives, tiny and huge values',
 'Negative weights appear only during gradient steps; no test covers them.',
 ['spn/utils.go','learn/derive.go'],[('normalisation','spn/utils.go NormalizeSPN, learn/derive.go Normalize')],'Weights() of every sum')
p('C27','Image halves and written images contain the right pixels',
 'For every image instance, splitting it into the requested half and the rest returns two disjoint parts that together are the image, the first being the pixels of that half (the middle row or column of an odd side may go to either part). Written image files have the stated format, dimensions and maximum and every pixel at its place with the right value. Images of completions show known pixels in grey or blue as given, completed pixels in green, and a red dividing line of maximum intensity in the middle. Colour scales convert every hue, saturation and value to the right red, green and blue.',
 ['inputs','configurations'],'all image sizes up to the bound, all four halves, all pixel values of a small range, all hues',
 'Off-by-one errors at odd sizes and file-format slips are not covered by any test.',
 ['io/images.go','io/output.go','io/ppm.go','common/color.go'],[('halves','io/images.go SplitHalf'),('writers','io/output.go, io/ppm.go'),('colours','common/color.go')],'returned halves and files')
p('C28','Image classification and completion applications report what they computed',
 'For every data set and setting, the classification application reports exactly the number of held-out instances whose most probable class is their label, over the partition it was asked for. Image completion trains only on the images it may see (images of other classes, or all but the one completed in tests), keeps the known half, fills the other half with the most probable values given it, and writes one file per image and half under its own name. Each learner is given data and variables of its own, so that what it does with them reaches no other image. The parallel versions write the same files as the sequential ones for every schedule, without data races and without running more learners at once than asked.',
 ['inputs','configurations','schedules'],'small data sets of images, all halves and class settings in the bound, recording learners, all interleavings up to the preemption bound',
 'The applications are only run by hand on big data; a mixed-up file or a leaked training image is not visible.',
 ['app/image.go'],[('classification','app/image.go ImgClassify, ImgBatchClassify'),('completion','app/image.go ImgCompletion, ImgTest, ImgTestParallel')],'reported counts, learner calls and files written')
p('C29','Drawings of a network show exactly its nodes, edges and weights',
 'For every SPN, the drawn graph file (in both formats) has one root and, followed from there, shows exactly the network: every node with its kind and, for leaves, its variable, and under every node exactly the edges of the network, with the weight on each edge of a sum. A shared sub-network may be drawn once or again under each parent, and equal leaves of one variable may share a drawing, but no two different nodes are drawn under one name otherwise, and a network that is a single leaf is drawn too. Drawing leaves the network unchanged.',
 ['inputs','programs'],'all small SPN graphs with shared and repeated edges, all leaf kinds, a menu of weights',
 'No test looks at the drawings; sharing and single nodes are the cases that go wrong.',
 ['io/output.go'],[('drawing','io/output.go DrawGraph, DrawGraphTools')],'the files written')
p('C30','Downloads are complete or reported as failed, and cached',
 'For every outcome of the transfer (complete, refused, error status, cut at any point), downloading returns no error exactly when the target file is complete, and otherwise returns an error and leaves the file that was there before, or none, also while a transfer is under way and after an earlier download was stopped for good at any point. The loaders of the built-in data sets return nothing after a failed download and try again at the next call; once loaded the data are the contents of the file and are not downloaded again.',
 ['histories','crash_points'],'all histories of loader calls up to the depth, with every outcome of each transfer: refused, error statuses, every cut position',
 'Tests have no network; failures in the middle of a transfer cannot be sampled.',
 ['io/http.go','data/datasets.go'],[('download','io/http.go DownloadFromURL'),('loaders','data/datasets.go')],'returned errors, data sets and the files on disk')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
