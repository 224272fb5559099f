def more(prop, H):
    B = [H + 'osm_graph_builder.h', 'src/osm_graph_builder.cpp']
    prop('P20', 'The routing graph extracted from an OSM file equals the described network',
         'For every OSM file and every choice of used ways, directions and routing nodes, the extracted graph has exactly the crossings, way ends and selected nodes as nodes, and one arc per direction and pair of consecutive routing nodes of each used way, with the way it belongs to, its direction, its geographic length and the modelling nodes in between as its shape. '
         'Node positions, the numbering of nodes and ways, and the results for the first-pass ID sets are exact, and the file order, block structure and callbacks that are absent do not matter.',
         ['inputs', 'configurations'], 'all sets of nodes and ways (shared nodes, loops, repeated nodes, degenerate ways), callbacks, geometry requests, ID ranges',
         'No stable test loads an OSM file.',
         B + [H + 'id_mapper.h'], [('selection of routing nodes', 'src/osm_graph_builder.cpp load_osm_id_mapping_from_pbf'), ('arc generation, geometry and sorting', 'src/osm_graph_builder.cpp load_osm_routing_graph_from_pbf')],
         'generated OSM worlds, reference model of the extraction', 'lengths within 1 m or 0.1 percent; arcs compared as a multiset of complete descriptions')
    prop('P21', 'Turn restrictions of OSM relations forbid exactly the meant turns',
         'For every set of restriction relations (prohibitive and mandatory, all directions, several from- or to-ways, given or missing via node, for other vehicles, broken ones) the extracted forbidden turns are exactly the pairs of consecutive arcs whose combination the relations rule out, sorted by incoming and then outgoing arc. '
         'Relations that do not describe a car restriction at one node are ignored and never disturb the others.',
         ['inputs'], 'all networks and restriction relations, up to angles close to a direction limit',
         'No stable test contains a turn restriction.',
         B + ['src/osm_profile.cpp'], [('decoding of restriction relations', 'src/osm_profile.cpp decode_osm_car_turn_restrictions'), ('via node derivation, angle test, mandatory to prohibitive', 'src/osm_graph_builder.cpp')],
         'generated worlds with relations, reference model', 'turns whose angle is within a thousandth of a direction limit are left out')
    prop('P22', 'Car, bicycle and pedestrian profiles interpret OSM tags as defined',
         'For every combination of OSM tags, the standard profiles decide consistently which ways are usable and in which directions, which speed and name they have and how comfortable they are for bicycles, as defined by the tag tables; speed texts (units, lists, signals, nonsense) never crash and never give a useless speed. '
         'The one-call loaders and the extraction tool return a graph in which arcs, travel times, lengths and positions agree with those decisions, sorted by tail and head.',
         ['inputs'], 'all tag combinations, speed texts, worlds',
         'No stable test evaluates a profile function.',
         [H + 'osm_profile.h', 'src/osm_profile.cpp', H + 'osm_simple.h', 'src/osm_simple.cpp', 'src/osm_extract.cpp'], [('tag tables', 'src/osm_profile.cpp'), ('speed parsing', 'src/osm_profile.cpp parse_maxspeed_value / get_osm_way_speed'), ('simple loaders', 'src/osm_simple.cpp')],
         'generated tag sets, table model, differential against the full loader', 'ferry=yes for bicycles and pedestrians and unknown oneway values are not claimed (documentation and code disagree)')
    prop('P23', 'Asynchronous reading delivers exactly the bytes of the source',
         'For every source, chunking, buffer size, request sequence and thread schedule, the asynchronous reader delivers the bytes of its source in order and complete, reports the end exactly once all bytes were delivered, passes on an exception of the source without inventing data or an end in its place, lets bytes that were delivered be read while the source still waits for more, and can be moved, replaced and destroyed at any time without hanging, leaking or touching freed memory. '
         'File sources read exactly the file, report its size, and release it when closed, moved or destroyed.',
         ['inputs', 'schedules', 'fault_sequences', 'histories'], 'all sources, buffer sizes, read sizes, delays of both sides, failing sources, moves and early destruction',
         'The stable test runs a few fixed patterns without delays.',
         ['src/buffered_asynchronous_reader.h', 'src/buffered_asynchronous_reader.cpp', 'src/file_data_source.h', 'src/file_data_source.cpp'], [('ring buffer and its synchronisation', 'src/buffered_asynchronous_reader.cpp'), ('file handle ownership', 'src/file_data_source.cpp')],
         'generated request sequences and schedules with injected delays and faults', 'schedules are sampled with random delays; also run under ThreadSanitizer')
    prop('P24', 'Threads may share unchanging data and use their own query objects',
         'For every interleaving, several threads that use their own query, search or metric objects on shared hierarchies, indices, graphs and files, or call the free functions of the library, get exactly the answers a single thread gets, without data races.',
         ['schedules', 'inputs'], 'all interleavings of read-only use of shared data by several threads',
         'All tests are single threaded.',
         [H + 'contraction_hierarchy.h', H + 'customizable_contraction_hierarchy.h', H + 'dijkstra.h', H + 'geo_position_to_node.h', H + 'vector_io.h', 'src'], [('no hidden mutable state in const objects and free functions', 'all public classes')],
         'generated workloads on several threads, single-thread oracle, ThreadSanitizer', 'schedules are sampled; ThreadSanitizer reports races independent of their outcome')
    prop('P25', 'Vector file tools convert between text and binary without loss',
         'For every list of numbers or strings, the encoding tool writes exactly these elements, the decoding tool prints text that encodes to the same file again for every element type, and the comparison tool reports exactly whether, where and how often two files differ. '
         'Input that is not a number or does not fit the element type is rejected as a whole without writing a file, files of impossible size are reported, and the vector generators write as many elements as asked for, all within range.',
         ['inputs'], 'all element types, extreme values, strings with escapes and new lines, broken lines',
         'The tools have no tests.',
         ['src/encode_vector.cpp', 'src/decode_vector.cpp', 'src/compare_vector.cpp', 'src/generate_constant_vector.cpp', 'src/generate_random_node_list.cpp', 'src/generate_random_source_times.cpp', 'src/generate_test_queries.cpp'], [('text conversion and range checks', 'src/encode_vector.cpp'), ('printing and escaping', 'src/decode_vector.cpp'), ('difference counts', 'src/compare_vector.cpp')],
         'generated vectors, round trip through the real programs', 'the programs are built from the current tree and run in a scratch directory; exit codes are not claimed (the tools report errors in their output)')
    prop('P26', 'Graph file tools compute exact results and keep graphs intact',
         'For every graph file, importing and exporting the DIMACS format keeps nodes, arcs and weights, random renumbering yields an isomorphic graph with all weight files permuted alike and depends on the seed only, the Dijkstra and contraction hierarchy tools write exactly the shortest distances and paths, rank queries have the rank and distance they claim, geographic weights are the distances of the arc ends in whole metres, rounded down, node orders are permutations, and drawings contain every arc once. '
         'Inconsistent graph files, broken DIMACS lines and query lists of different length are reported and nothing is written.',
         ['inputs'], 'all graphs (also without arcs), query lists (also empty), DIMACS texts with comments, broken lines and headers, inconsistent files',
         'The tools have no tests.',
         ['src/convert_road_dimacs_graph.cpp', 'src/convert_road_dimacs_coordinates.cpp', 'src/export_road_dimacs_graph.cpp', 'src/randomly_permute_nodes.cpp', 'src/run_dijkstra.cpp', 'src/compute_contraction_hierarchy.cpp', 'src/run_contraction_hierarchy_query.cpp', 'src/show_path.cpp', 'src/examine_ch.cpp', 'src/generate_dijkstra_rank_test_queries.cpp', 'src/compute_geographic_distance_weights.cpp', 'src/compute_nested_dissection_order.cpp', 'src/graph_to_dot.cpp', 'src/graph_to_svg.cpp', 'src/verify.cpp'],
         [('parsing and sorting of arcs', 'src/convert_road_dimacs_graph.cpp'), ('validity checks', 'src/verify.cpp'), ('query loops', 'src/run_dijkstra.cpp, src/run_contraction_hierarchy_query.cpp'), ('consistent permutation', 'src/randomly_permute_nodes.cpp')],
         'generated graphs, differential and round trip through the real programs', 'the programs are built from the current tree and run in a scratch directory')
    prop('P27', 'Validators accept exactly the well-formed data',
         'For every input, the graph, time-dependent graph and query validators reject exactly the data that breaks a stated requirement (adjacency offsets, array sizes, node ranges, sorted interpolation points within the period), and the contraction hierarchy validator accepts every hierarchy the library builds, customizes or loads and rejects it once an offset, size, rank, order, head, shortcut half or shortcut weight is broken. '
         'No input makes a validator crash.',
         ['inputs'], 'all vectors of all lengths including empty ones and values out of range; all hierarchies with one broken field',
         'No test calls the validators with broken data.',
         ['src/verify.h', 'src/verify.cpp', 'src/contraction_hierarchy.cpp'], [('graph and query checks', 'src/verify.cpp'), ('hierarchy checks', 'src/contraction_hierarchy.cpp check_contraction_hierarchy_for_errors')],
         'generated valid data with random disturbances, independent predicate as oracle', 'broken original arc weights are not detectable and not claimed')
