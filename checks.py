"""What is run for every property: (harness, group, test, build, cases of the quick tier, cases of the thorough tier)."""
VARIANTS = {
    # the build with which the behaviour is observed
    'rel': dict(cxx=['g++'], flags=['-O2', '-g1']),
    # memory errors, undefined behaviour
    'asan': dict(cxx=['g++'], flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], weight=3, cpu=120),
    # values that come from uninitialised memory
    'memcheck': dict(cxx=['g++'], flags=['-O1', '-g1', '-DVF_UNDEF'], run=['valgrind', '-q', '--error-exitcode=9', '--leak-check=no', '--track-origins=no'], error_rc=9, weight=1, cpu=300),
    # data races
    'tsan': dict(cxx=['g++'], flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-pthread'], cpu=200),
    # malloc, operator new and their like are counted, also where the compiler could leave them out
    'alloc': dict(cxx=['g++'], flags=['-O2', '-g1', '-fno-allocation-dce', '-fno-builtin-malloc', '-fno-builtin-free', '-DVF_ALLOC']),
}
COMPONENTS = ['bloom', 'cuckoo', 'sampling', 'ltc', 'mcnn', 'hoeffding', 'bayes', 'perceptron', 'metrics', 'mondrian', 'unbound', 'coarse']


def generic(group, test, variant, quick, thorough, skip=()):
    return [(h, group, test, variant, quick, thorough) for h in COMPONENTS if h not in skip]


BEHAVIOUR = [('bloom', 'MODEL', 'model'), ('cuckoo', 'MODEL', 'model'), ('cuckoo', 'ROOM', 'room'), ('sampling', 'CONTRACT', 'contract'), ('sampling', 'OBSOLETE', 'obsolete'),
             ('ltc', 'ERROR', 'error'), ('ltc', 'ECONOMY', 'economy'), ('mcnn', 'MODEL', 'model'), ('mcnn', 'CAPACITY', 'capacity'), ('hoeffding', 'SPLIT', 'split'), ('hoeffding', 'SPLIT', 'deep'), ('bayes', 'MODEL', 'model'),
             ('perceptron', 'FORWARD', 'forward'), ('perceptron', 'BACKPROP', 'backprop'), ('metrics', 'MODEL', 'model'), ('utils', 'UTILS', 'helpers'), ('utils', 'UTILS', 'distribution'),
             ('mondrian', 'EXACT', 'exact'), ('unbound', 'EXACT', 'exact'), ('coarse', 'MODEL', 'model'), ('coarse', 'STRUCTURE', 'structure')]

# long streams: counters, timestamps and numbers of nodes beyond 16 bits
ENDURANCE = [('mcnn', 'MODEL', 'endurance'), ('hoeffding', 'STATS', 'endurance'), ('bayes', 'MODEL', 'endurance'), ('metrics', 'MODEL', 'endurance'), ('cuckoo', 'ROOM', 'large'),
             ('mondrian', 'EXACT', 'endurance'), ('unbound', 'EXACT', 'endurance'), ('coarse', 'EXACT', 'endurance')]


# more features, classes, slots, trees, neurons, bits than a byte or a short can number
WIDE = [('bloom', 'MODEL'), ('sampling', 'CONTRACT'), ('sampling', 'EXPONENTIAL'), ('sampling', 'OBSOLETE'), ('sampling', 'UNIFORM'), ('mcnn', 'MODEL'), ('hoeffding', 'STATS'), ('bayes', 'MODEL'), ('perceptron', 'FORWARD'), ('perceptron', 'BACKPROP'), ('metrics', 'MODEL'),
        ('utils', 'UTILS'), ('mondrian', 'EXACT'), ('unbound', 'EXACT'), ('coarse', 'MODEL'), ('coarse', 'STRUCTURE'), ('coarse', 'REPORT')]


def wide(harness, group, quick, thorough, test='wide'):
    assert (harness, group) in WIDE
    return [(harness, group, test, 'rel', quick, thorough)]


def endurance(harness, quick, thorough):
    return [(h, g, t, 'rel', quick, thorough) for (h, g, t) in ENDURANCE if h == harness]


PROPERTIES = {
    'C01': dict(runs=generic('SAFE', 'safe', 'asan', 1500, 30000) + generic('SAFE', 'safe', 'memcheck', 48, 1000) + [(h, g, t, 'asan', 300, 4000) for (h, g, t) in BEHAVIOUR] + [(h, g, t, 'asan', 16, 400) for (h, g, t) in ENDURANCE] + [(h, g, 'wide', 'asan', 32, 600) for (h, g) in WIDE],
                rule='random configurations and hostile histories of every component, with random functions that often return their extreme values, on memory with arbitrary initial contents; non-trivial: at least one operation ran under the instrumentation.',
                assumptions=['the generic configurations stay inside of the documented preconditions (see DESIGN.md, excluded domain)', 'a clean run says nothing about code the workload does not reach']),
    'C02': dict(runs=generic('ALLOC', 'alloc', 'alloc', 4000, 100000, skip=('unbound',)) + [('sampling', 'ALLOC', 'window', 'alloc', 1000, 20000)],
                rule='every operation runs with malloc, calloc, realloc, posix_memalign and operator new counted, and the size of the object is compared with what its parameters ask for; non-trivial: at least one operation ran with the allocations counted.'),
    'C03': dict(runs=generic('DET', 'det', 'rel', 4000, 100000), rule='the same history runs on memory filled with 0, 0xFF and 0x41, on different stack contents, and interleaved with other instances of the same type; non-trivial: at least one operation was compared between executions.'),
    'C04': dict(runs=generic('RO', 'ro', 'rel', 5000, 150000), rule='one history runs twice, the second time with additional queries between its operations; non-trivial: at least one operation was compared.'),
    'C05': dict(runs=generic('COPY', 'copy', 'asan', 1500, 30000), rule='an instance is copied (construction, or assignment over a used instance) in the middle of a history, then both are used or one of them is destroyed, and both are compared with instances that were never copied; non-trivial: at least one operation was compared after the copy.'),
    'C06': dict(runs=generic('THREADS', 'threads', 'tsan', 2400, 60000) + [(h, 'THREADS', 'readers', 'tsan', 1600, 40000) for h in ('sampling', 'hoeffding', 'mcnn', 'metrics')],
                rule='two to four threads work at the same time under a race detector, on instances of their own or with const operations on one instance, and what they obtain is compared with the same work done by one thread; the monitor adds no ordering between the threads; non-trivial: at least one operation was compared. Signatures include the order of the operations of the threads.',
                assumptions=['the random functions given to the components may be called from several threads', 'ReservoirSamplingMetrics, whose total is shared by all its instances, is left out']),
    'B01': dict(runs=[('bloom', 'MODEL', 'model', 'rel', 40000, 1000000)] + wide('bloom', 'MODEL', 240, 6000), rule='adds and lookups against the exact set of bit positions; non-trivial: at least one element was added.'),
    'K01': dict(runs=[('cuckoo', 'MODEL', 'model', 'rel', 30000, 800000)] + endurance('cuckoo', 24, 600), rule='adds, removals, clears and lookups against the exact multiset of (fingerprint, pair of buckets), until the first refused addition; non-trivial: at least one element was added.'),
    'K02': dict(runs=[('cuckoo', 'ROOM', 'room', 'rel', 20000, 500000), ('cuckoo', 'ROOM', 'load', 'rel', 4000, 100000)], rule='adds until one to three are refused, then everything left is counted by removing it; and fills with distinct elements until the first refusal; non-trivial: at least one addition.'),
    'R01': dict(runs=[('sampling', 'UNIFORM', 'uniform', 'rel', 2000, 50000)] + wide('sampling', 'UNIFORM', 400, 10000), rule='frequencies of the elements, slots and pairs over repeated streams; non-trivial: at least one frequency compared.'),
    'R02': dict(runs=[('sampling', 'CONTRACT', 'contract', 'rel', 60000, 1000000)] + wide('sampling', 'CONTRACT', 400, 10000), rule='every add is compared with the reservoir before and after it; non-trivial: at least one add.'),
    'R03': dict(runs=[('sampling', 'EXPONENTIAL', 'exponential', 'rel', 6000, 150000)] + wide('sampling', 'EXPONENTIAL', 400, 10000), rule='every add is compared with the reservoir before and after it, and the frequencies of replacement with the law; non-trivial: at least one add.'),
    'R04': dict(runs=[('sampling', 'CHAINED', 'chained', 'rel', 800, 20000)], rule='streams with timestamps and deletions, the elements of every slot are compared with the window, and their frequencies over repeated streams with the uniform law; non-trivial: at least one element compared.'),
    'R05': dict(runs=[('sampling', 'OBSOLETE', 'obsolete', 'rel', 4000, 100000)] + wide('sampling', 'OBSOLETE', 120, 3000), rule='streams with obsolescence; every slot is compared with the window after each operation; non-trivial: at least one operation.'),
    'L01': dict(runs=[('ltc', 'ERROR', 'error', 'rel', 60000, 1000000)], rule='series of points of many shapes; every point removed is compared with the interpolation of the points kept; non-trivial: at least one point was removed.'),
    'L02': dict(runs=[('ltc', 'ECONOMY', 'economy', 'rel', 60000, 1000000)], rule='series of points of many shapes; the points kept are compared with those the cone of the segment justifies; non-trivial: at least one point was kept.'),
    'N01': dict(runs=[('mcnn', 'MODEL', 'model', 'rel', 60000, 1000000)] + wide('mcnn', 'MODEL', 800, 20000) + endurance('mcnn', 240, 6000), rule='streams of labelled points against a reference of the micro-clusters, whose predictions are compared after every point; non-trivial: at least one prediction.'),
    'N02': dict(runs=[('mcnn', 'CAPACITY', 'capacity', 'rel', 40000, 800000)], rule='streams of labelled points; number of clusters, conservation and returned values after every operation; non-trivial: at least one operation.'),
    'H01': dict(runs=[('hoeffding', 'STATS', 'stats', 'rel', 30000, 600000)] + wide('hoeffding', 'STATS', 280, 7000) + endurance('hoeffding', 80, 2000), rule='streams of labelled points on a leaf; scores and information gains against the table of the points; non-trivial: at least one score compared.'),
    'H02': dict(runs=[('hoeffding', 'SPLIT', 'split', 'rel', 20000, 500000), ('hoeffding', 'SPLIT', 'deep', 'rel', 2000, 60000)] + wide('hoeffding', 'STATS', 280, 7000) + endurance('hoeffding', 40, 2000), rule='streams of labelled points against a reference tree (counters, limits, Hoeffding bound, routing, memory); non-trivial: the tree split, or a justified split was refused for lack of space.'),
    'V01': dict(runs=[('bayes', 'MODEL', 'model', 'rel', 40000, 800000)] + wide('bayes', 'MODEL', 400, 10000) + endurance('bayes', 80, 2000), rule='streams of labelled points; scores against the Gaussian law of the points of each class; non-trivial: at least one score compared.'),
    'P01': dict(runs=[('perceptron', 'FORWARD', 'forward', 'rel', 40000, 1000000)] + wide('perceptron', 'FORWARD', 1000, 20000), rule='random topologies, weights and inputs; outputs against a plain evaluation of the network; non-trivial: at least one output compared.'),
    'P02': dict(runs=[('perceptron', 'BACKPROP', 'backprop', 'rel', 40000, 1000000)] + wide('perceptron', 'BACKPROP', 1000, 20000), rule='random topologies, weights, inputs and targets; weights and error against gradient descent on a plain network; non-trivial: at least one weight compared.'),
    'E01': dict(runs=[('metrics', 'MODEL', 'model', 'rel', 60000, 1000000)] + wide('metrics', 'MODEL', 600, 12000) + endurance('metrics', 240, 6000), rule='sequences of predictions, resets and forced errors against a table of them; non-trivial: at least one score compared.'),
    'E02': dict(runs=[('metrics', 'RESERVOIR', 'reservoir', 'rel', 40000, 800000)], rule='sequences of objects and resets against their order; non-trivial: at least one score compared.'),
    'U01': dict(runs=[('utils', 'UTILS', 'distribution', 'rel', 40000, 600000), ('utils', 'UTILS', 'frequencies', 'rel', 20000, 300000), ('utils', 'UTILS', 'helpers', 'rel', 60000, 800000)] + wide('utils', 'UTILS', 2000, 40000), rule='helpers called with random and extreme arguments against their definition, and frequencies of what they draw; non-trivial: at least one result compared.'),
    'M01': dict(runs=[('mondrian', 'EXACT', 'exact', 'rel', 30000, 800000)] + wide('mondrian', 'EXACT', 600, 12000) + endurance('mondrian', 64, 2000), rule='streams of labelled points; all the random numbers of one training are equal, so their order does not matter, and the scores are compared with a reference forest after every training; non-trivial: at least one tree has a node.'),
    'M02': dict(runs=[('unbound', 'EXACT', 'exact', 'rel', 24000, 600000)] + wide('unbound', 'EXACT', 600, 12000) + endurance('unbound', 64, 2000), rule='as M01, with a number of trees chosen at run time; non-trivial: at least one tree has a node.'),
    'M03': dict(runs=[(h, 'SCORES', 'distribution', 'rel', 1200, 40000) for h in ('mondrian', 'unbound', 'coarse')], rule='the same few points train hundreds of forests with independent random numbers, and their average scores are compared with those of as many reference forests; non-trivial: at least one average compared.'),
    'M04': dict(runs=[(h, 'SCORES', 'symmetry', 'rel', 20000, 500000) for h in ('mondrian', 'unbound', 'coarse')] + [(h, 'SCORES', 'wide', 'rel', 2000, 40000) for h in ('mondrian', 'unbound', 'coarse')], rule='long streams; every score is in its range, and a forest trained with renamed classes has renamed scores; non-trivial: at least one training.'),
    'M05': dict(runs=[('coarse', 'STRUCTURE', 'structure', 'rel', 30000, 800000)] + wide('coarse', 'STRUCTURE', 400, 10000) + [('coarse', 'STRUCTURE', t, 'rel', 1, 1) for t in ('triggers_lost', 'triggers_lost_again', 'triggers_broken')], rule='streams under all the strategies and random functions; all the nodes are visited after every training; non-trivial: at least one node visited.'),
    'M06': dict(runs=[('coarse', 'MODEL', 'model', 'rel', 24000, 500000), ('coarse', 'EXACT', 'exact', 'rel', 16000, 300000)] + wide('coarse', 'MODEL', 1600, 30000) + endurance('coarse', 64, 2000), rule='streams under all the strategies without cuts; all the nodes are compared with a reference forest after every training (random numbers as in M01); non-trivial: at least one training.'),
    'M07': dict(runs=[('coarse', 'MODEL', 'trim', 'rel', 4000, 100000), ('coarse', 'MODEL', 'cut', 'rel', 2000, 50000)] + wide('coarse', 'MODEL', 800, 20000, 'wide_trim'), rule='streams that fill the memory of a forest that cuts leaves; all the nodes are compared with a reference forest for one of the cuts the rule allows, and the leaves cut at random are counted over copies of a forest; non-trivial: at least one leaf was cut.'),
    'M08': dict(runs=[('coarse', 'REPORT', 'report', 'rel', 12000, 300000), ('coarse', 'REPORT', 'report', 'asan', 800, 20000)] + wide('coarse', 'REPORT', 240, 6000), rule='streams on two forests with the same random numbers, one of which prints or is asked; everything it reports is compared with its nodes, and its nodes with the other forest; non-trivial: at least once it printed or was asked.'),
    'M09': dict(runs=[('coarse', 'MODEL', 'divide', 'rel', 6000, 150000), ('coarse', 'MODEL', 'divide', 'asan', 300, 6000)] + wide('coarse', 'MODEL', 400, 8000, 'wide_divide'), rule='streams that fill the memory of a forest that cuts leaves and divides others at the barycentre; all the nodes are compared with a reference forest after every training; non-trivial: at least one leaf was cut and one divided.'),
}
