#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run tools/props.py after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/routingkit/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state))


CH = [H + 'contraction_hierarchy.h', 'src/contraction_hierarchy.cpp']
CCH = [H + 'customizable_contraction_hierarchy.h', 'src/customizable_contraction_hierarchy.cpp']

prop('P01', 'Contraction hierarchy distances equal true shortest distances',
     'For every directed graph with non-negative integer weights (including loops, parallel and zero-weight arcs, unreachable parts, arcs of infinite weight), every node order and every witness-search budget, the distance a contraction hierarchy query reports is exactly the shortest distance, and infinity exactly if there is no path shorter than infinity. '
     'With several weighted sources and targets it is the minimum over all combinations, and the reported used source and used target attain it. A hierarchy built with a given order or rank uses that order, and a log callback, however slow, does not change the result.',
     ['inputs', 'configurations'], 'all graphs, weights up to infinity, all contraction orders (given or computed), all witness-search pop limits, all source/target multisets',
     'The stable tests never build a contraction hierarchy of a random graph with unusual weights, orders or pop limits; they sample one fixed graph.',
     CH, [('witness search, shortcut insertion and node contraction', 'src/contraction_hierarchy.cpp build_ch_and_order / contract_node'), ('bidirectional upward search with stall-on-demand', 'ContractionHierarchyQuery::run')],
     'generated graphs, differential oracle: reference Dijkstra', 'all pairs on small graphs, sampled pairs on graphs of up to 70,000 nodes', ['get_distance', 'get_used_source', 'get_used_target'])
prop('P02', 'Contraction hierarchy paths are real paths of the reported length',
     'For every graph, weighting and query with a finite answer, the unpacked arc path is a contiguous walk of original arcs from the used source to the used target whose weights sum to the reported distance (including the source and target offsets), and the node path is the node sequence of that walk. '
     'If the target is unreachable both paths are empty.',
     ['inputs', 'configurations'], 'all graphs, weights, orders, source/target sets',
     'Shortcut unpacking depends on which witness was found and in which order nodes were contracted; tests check a single graph.',
     CH, [('shortcut middle arcs and unpacking', 'src/contraction_hierarchy.cpp unpack_*_arc, get_arc_path, get_node_path')],
     'generated graphs, invariant over the returned path', 'walk validity and length checked against the input arcs only', ['get_arc_path', 'get_node_path'])
prop('P03', 'Reused contraction hierarchy queries answer like fresh ones',
     'For every sequence of resets, source/target additions, runs, pinned runs, re-targeting to other hierarchies, copies, moves and result reads on one contraction hierarchy query object, each answer equals that of a freshly constructed object given only the inputs since the last reset. '
     'This includes histories with more resets than a 16-bit counter can hold.',
     ['histories'], 'all call histories that respect the documented state machine, over any set of hierarchies of different sizes',
     'Tests use each query object for a handful of calls; stale state needs specific interleavings and long histories.',
     CH + [H + 'timestamp_flag.h', H + 'id_queue.h'], [('timestamp flags and lazy clearing', H + 'timestamp_flag.h'), ('reset functions', 'src/contraction_hierarchy.cpp ContractionHierarchyQuery::reset*')],
     'stateful model-based testing', 'the model recomputes every answer by reference Dijkstra')
prop('P04', 'Pinned one-to-many contraction hierarchy queries match single queries',
     'For every list of pinned targets (or sources), including empty lists, duplicates and lists longer than the graph, every set of sources (targets) and every re-use of the pinned list, entry i of the reported distances equals the shortest distance to (from) the i-th pinned node, and the reported used source or target of entry i attains it.',
     ['inputs', 'histories'], 'all graphs, pinned lists, source/target sets and repetitions',
     'The selection of the pinned search space and the sweep order depend on the hierarchy; tests pin one list on one graph.',
     CH, [('pinned search space selection and top-down sweep', 'src/contraction_hierarchy.cpp pin_targets / run_to_pinned_targets')],
     'generated inputs, differential oracle', 'compared with reference Dijkstra per entry', ['get_distances_to_targets', 'get_distances_to_sources', 'get_used_sources_to_targets', 'get_used_targets_to_sources'])
prop('P05', 'Extra weights equal the ordered fold along the chosen path',
     'For every weighting of the arcs or nodes with any associative (not necessarily commutative) link operation, the extra distance a contraction hierarchy query reports equals linking the extra weights of the arcs of the path it chose, in path order, for single queries and for each entry of pinned queries, also when query, weight and buffer objects are reused for other hierarchies, and, as documented, without allocating memory when both buffers are given. '
     'Saturating addition never wraps around.',
     ['inputs', 'configurations'], 'all graphs, extra weight types (integers, floats, strings, sequences), link functions and queries',
     'Tests use commutative integer sums on one graph, which cannot see reversed or duplicated operands.',
     CH, [('extra weights of shortcuts, linking in unpack order', H + 'contraction_hierarchy.h ContractionHierarchyExtraWeight, get_extra_weight_distance*')],
     'generated inputs with a free-monoid weight as oracle', 'the fold of the reported path is recomputed independently')
prop('P06', 'Stored contraction hierarchies survive a round trip or are rejected',
     'For every contraction hierarchy, saving and loading it (by file or by stream callbacks, in any chunking) yields a hierarchy with the same contents and the same answers. '
     'Truncated, extended or wrongly typed data and counts that contradict the size are rejected with an exception, and a medium that fails while writing or reading is reported.',
     ['inputs', 'fault_sequences'], 'all hierarchies, all truncation points and header values, all failing positions of the medium',
     'No stable test stores a contraction hierarchy at all.',
     CH + [H + 'vector_io.h'], [('file header check and size computation', 'src/contraction_hierarchy.cpp ContractionHierarchy::read'), ('write/read callbacks', 'ContractionHierarchy::save_file/load_file')],
     'round trip, fault injection', 'byte-level and behavioural comparison; faults at generated positions')
prop('P07', 'Customizable contraction hierarchies answer exactly on every metric',
     'For every graph, every node order, every metric (weights from zero up to infinity) and both with and without filtering of always-infinite arcs, a customizable contraction hierarchy query reports exactly the shortest distance and a contiguous path of original arcs that has this length, using parallel arcs and loops correctly. '
     'A copied index works independently of the original.',
     ['inputs', 'configurations'], 'all graphs x orders x metrics x index options x queries',
     'Stable tests only cover resetting on one small graph.',
     CCH, [('chordal completion, elimination tree', 'src/customizable_contraction_hierarchy.cpp'), ('arc mapping input arc <-> CCH arc incl. extra arcs', 'forward_input_arc_of_cch / extra_*'), ('lower triangle relaxation', 'customize'), ('elimination tree query', 'CustomizableContractionHierarchyQuery::run')],
     'generated graphs and metrics, differential oracle', 'reference Dijkstra on the weights of the metric')
prop('P08', 'All ways of customizing a metric give the same answers',
     'For every index and every sequence of weight changes, full customization, parallel customization with any number of threads, partial customization of at least the changed arcs, and perfect customization all produce a metric whose queries (and, for perfect customization, whose exported contraction hierarchy) give exactly the shortest distances of the current weights. '
     'Mixing these in any order on one metric object gives the same answers.',
     ['inputs', 'histories', 'schedules'], 'all indices, histories of weight changes and customizations, thread counts and schedules',
     'Parallel and partial customization results depend on schedules and on which arcs changed; stable tests do not exercise them.',
     CCH, [('atomic minimum of concurrent relaxations', 'CustomizableContractionHierarchyParallelization::customize'), ('dirty arc queue', 'CustomizableContractionHierarchyPartialCustomization'), ('perfect customization', 'build_contraction_hierarchy_using_perfect_witness_search')],
     'stateful generation, differential oracle', 'after each customization the answers are compared with reference Dijkstra; thread schedules are sampled')
prop('P09', 'Reused customizable queries answer like fresh ones',
     'For every sequence of resets, source/target additions, runs, pinned one-to-many and many-to-one runs, metric changes, copies and moves on one customizable contraction hierarchy query object, each answer equals that of a fresh object, and entry i of a pinned run is the exact shortest distance to (from) the i-th pinned node.',
     ['histories', 'inputs'], 'all call histories over any set of indices and metrics',
     'Stale per-node state shows only after particular histories; the reset test covers one.',
     CCH, [('reset via elimination tree ancestors', 'CustomizableContractionHierarchyQuery::reset*'), ('pinned target counters', 'pin_targets / run_to_pinned_targets')],
     'stateful model-based testing', 'one recorded known finding (index replaced in place with the same node count)')
prop('P10', 'Dijkstra settles nodes in order with exact distances and paths',
     'For every graph, source set with departure times, static weighting or time-dependent first-in-first-out weight function, early stopping point and re-use history, the search settles each reachable node once in non-decreasing order of distance, with exact distances and contiguous shortest paths, and never reports an unreachable node as reached.',
     ['inputs', 'histories'], 'all graphs, weight functions, sources, stop points, reset histories (also beyond 65536 resets)',
     'No stable test runs the search on generated graphs; the shipped test is not among the stable ones.',
     [H + 'dijkstra.h', H + 'id_queue.h', H + 'timestamp_flag.h'], [('settle loop and tentative distances', H + 'dijkstra.h Dijkstra::settle')],
     'generated graphs, differential oracle', 'oracle: Bellman-Ford style reference')
prop('P11', 'Nested dissection cuts and orders are valid',
     'For every symmetric graph and coordinates: fragments keep exactly the arcs, back arcs and node names of the graph; decompositions into components are exact; inertial-flow cuts separate source from target sides, respect the balance and have minimum size for their sides; computed separators really separate; '
     'and the nested dissection order is a permutation in which every separator comes after the parts it separates.',
     ['inputs', 'configurations'], 'all symmetric graphs, coordinates, balances, log callbacks',
     'The stable test checks one small graph.',
     [H + 'nested_dissection.h', 'src/nested_dissection.cpp'], [('unit flow augmentation', 'src/nested_dissection.cpp compute_unit_max_flow / BlockingFlow'), ('separator from cut, recursion', 'compute_separator_decomposition')],
     'generated graphs, invariant and reference max-flow oracle', 'cut sizes compared with a reference maximum flow')
prop('P12', 'Bit vectors behave like arrays of booleans',
     'For every sequence of bit-vector operations (construction, resize with any fill, set, reset and toggle of single bits, bulk and binary operators, direct access to the words, copy, move, swap, counting, comparisons) the result equals that of the same operations on a plain array of booleans, for every size including multiples of the internal block sizes.',
     ['inputs', 'histories'], 'all operation sequences and sizes',
     'The test checks fixed sizes and a fixed operation list.',
     [H + 'bit_vector.h', 'src/bit_vector.cpp', 'src/bit_select.cpp'], [('padding bits of the last block', 'src/bit_vector.cpp'), ('select in word', 'src/bit_select.cpp')],
     'stateful model-based testing', 'model: std::vector<bool>')
prop('P13', 'ID mappers are exact bijections and filters keep exactly the marked',
     'For every set of IDs (also beyond 32 bits) the global-to-local mapping numbers exactly the set consecutively in increasing order, the inverse mapping undoes it, the membership test is exact and unmapped IDs yield the given invalid value. '
     'Filtering keeps exactly the marked elements, in order, for every element type.',
     ['inputs'], 'all bit patterns, sizes, ID values and element types',
     'The stable test samples one size.',
     [H + 'id_mapper.h', 'src/id_mapper.cpp', H + 'filter.h'], [('rank/select tables', 'src/id_mapper.cpp'), ('in-place filters', H + 'filter.h')],
     'generated sets, reference model', 'model: sorted vector')
prop('P14', 'Sorting, permutation, inversion and adjacency utilities obey their laws',
     'For every input: sorting and sort permutations order the data stably; permutations compose and invert as documented and apply to data and to ID values consistently; inverting a sorted or grouped vector yields exact index ranges; conversions between arc lists, adjacency arrays, node paths and arc paths are exact; invalid IDs stay invalid.',
     ['inputs'], 'all vectors, permutations, keys and graphs',
     'Tests use fixed examples of a few elements.',
     [H + 'sort.h', H + 'permutation.h', H + 'inverse_vector.h', H + 'graph_util.h', 'src/graph_util.cpp', H + 'min_max.h'], [('bucket sort', H + 'sort.h'), ('permutation algebra', H + 'permutation.h'), ('inverse vectors', H + 'inverse_vector.h')],
     'algebraic laws and reference implementations on generated data', 'reference: std::stable_sort and direct definitions')
prop('P15', 'Priority queues, set queues and timestamp flags match their models',
     'For every sequence of operations, the addressable priority queue pops elements in key order and reports membership, keys and changes exactly; the monotone set queue pops the smallest contained ID and reports an empty queue; and timestamp flags report exactly the elements set since the last reset, for any number of resets.',
     ['histories', 'inputs'], 'all operation sequences',
     'Only the set queue has a (small) stable test.',
     [H + 'id_queue.h', H + 'id_set_queue.h', H + 'timestamp_flag.h'], [('d-ary heap', H + 'id_queue.h'), ('timestamp overflow handling', H + 'timestamp_flag.h'), ('bit tree', H + 'id_set_queue.h')],
     'stateful model-based testing', 'model: std::map / std::set')
prop('P16', 'Nearest-node and radius queries agree with brute force distances',
     'For every set of points and every query position and radius, the nearest-node index returns a point whose distance is minimal within numerical tolerance (or none exactly if none is within the radius), the radius query returns exactly the points within the radius (up to about a metre of numerical tolerance at the radius itself), and great-circle distances are symmetric, finite and correct within half a metre, also for equal and antipodal points.',
     ['inputs', 'histories'], 'all point sets incl. duplicates, poles and the date line, all queries and radii, moved and copied indices',
     'The test samples one uniform random point set.',
     [H + 'geo_position_to_node.h', 'src/geo_position_to_node.cpp', H + 'geo_dist.h'], [('vantage point tree pruning', 'src/geo_position_to_node.cpp'), ('distance formula', H + 'geo_dist.h')],
     'generated point sets, brute force oracle in extended precision', 'tolerance 1 m + 1e-6 relative at decision boundaries')
prop('P17', 'Strongly connected components are exact',
     'For every directed graph (including deep chains of a million nodes) the component numbering assigns two nodes the same component exactly if each reaches the other, numbers components consecutively, and the largest-component mask marks exactly one largest component.',
     ['inputs'], 'all directed graphs',
     'The test checks one graph.',
     [H + 'strongly_connected_component.h', 'src/strongly_connected_component.cpp'], [('iterative Tarjan search', 'src/strongly_connected_component.cpp')],
     'generated graphs, reachability oracle', 'transitive closure on small graphs; known structure on deep ones')
prop('P18', 'Vectors written to disk come back identical, failures are reported',
     'For every vector of plain values, strings or bits and for single values, loading what was saved returns identical contents, appending and overwriting behave as documented, files of impossible size are rejected, and failures to open, read or write are reported as exceptions, never as silently missing data.',
     ['inputs', 'fault_sequences'], 'all element types and contents, all truncations, all failing media',
     'There is no stable test of vector files.',
     [H + 'vector_io.h', 'src/vector_io.cpp'], [('size check and stream state check', H + 'vector_io.h')],
     'round trip, fault injection', 'includes full devices, missing directories, truncation and trailing garbage')
prop('P19', 'OSM PBF files are decoded exactly, damaged files are reported',
     'For every valid OSM PBF file (dense and plain nodes, ways, relations, any granularity, offsets, string tables, compressed and raw blobs, unknown optional parts), reading reports exactly the elements with their IDs, positions, members, roles and tags, in file order, or nodes then ways then relations in ordered mode; tag lookups are exact for every tag set. '
     'A medium that fails while reading and a file that ends within a block, whose compressed data or declared sizes do not match, or whose elements refer to strings, members or coordinates that are not there are reported as errors, and no damaged file leads to invented elements before the damage, to memory errors or to a hang.',
     ['inputs', 'fault_sequences', 'schedules'], 'all element streams and encodings, all truncation points, random damage, callback subsets and exceptions',
     'Stable tests decode a few protobuf primitives and one tag map; no PBF file is read.',
     [H + 'osm_decoder.h', 'src/osm_decoder.cpp', 'src/protobuf.cpp', 'src/protobuf.h', H + 'tag_map.h'], [('blob decompression', 'src/osm_decoder.cpp OsmPBFDecompressor'), ('block decoding', 'internal_read_osm_pbf'), ('varint decoding', 'src/protobuf.cpp'), ('hash of tag keys', H + 'tag_map.h')],
     'structure-aware fuzzing with an independent PBF writer as reference model', 'the writer in harness/pbf.hpp follows the published format; the file header blob is not interpreted by the library and is not claimed')

try:
    from props_more import more
    more(prop, H)
except ImportError:
    pass

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3 run_check.py --setup',
         checks=[dict(property=p['id'], quick_cmd='python3 run_check.py %s quick' % p['id'], thorough_cmd='python3 run_check.py %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique='property-based testing: ' + p['technique'], level='exploration',
                      level_note='Holds on all generated cases of the run (seeded, counted in the evidence file), in an optimized and a sanitizer build. ' + p['note'][0].upper() + p['note'][1:] + '.') for p in P],
         not_applicable=[], notes='See DESIGN.md. properties.jsonl and MANIFEST.json are generated by tools/props.py. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
