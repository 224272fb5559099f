"""Registry: property id -> how its check is built and run."""
RA = ['release', 'asan']
RAP = RA + ['portable']
CHECKS = {
    'P01': dict(source='check_P01.cpp', variants=RA, variant_scale={'asan': 0.15}),
    'P02': dict(source='check_P02.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P03': dict(source='check_P03.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P04': dict(source='check_P04.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P05': dict(source='check_P05.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P06': dict(source='check_P06.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P07': dict(source='check_P07.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P08': dict(source='check_P08.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P09': dict(source='check_P09.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P10': dict(source='check_P10.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P11': dict(source='check_P11.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P12': dict(source='check_P12.cpp', variants=RAP, variant_scale={'asan': 0.2, 'portable': 0.1}),
    'P13': dict(source='check_P13.cpp', variants=RAP, variant_scale={'asan': 0.2, 'portable': 0.1}),
    'P14': dict(source='check_P14.cpp', variants=RA, variant_scale={'asan': 0.2}),
    'P15': dict(source='check_P15.cpp', variants=RA, variant_scale={'asan': 0.2}),
    'P16': dict(source='check_P16.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P17': dict(source='check_P17.cpp', variants=RA, variant_scale={'asan': 0.1}),
    'P18': dict(source='check_P18.cpp', variants=RA, variant_scale={'asan': 0.2}),
    'P19': dict(source='check_P19.cpp', variants=RAP, variant_scale={'asan': 0.1, 'portable': 0.05}, env={'MALLOC_PERTURB_': '0'}),
    'P20': dict(source='check_P20.cpp', variants=RA, variant_scale={'asan': 0.1}, env={'MALLOC_PERTURB_': '0'}),
    'P21': dict(source='check_P21.cpp', variants=RA, variant_scale={'asan': 0.1}, env={'MALLOC_PERTURB_': '0'}),
    'P22': dict(source='check_P22.cpp', variants=RA, variant_scale={'asan': 0.1}, env={'MALLOC_PERTURB_': '0'}, tools=['osm_extract']),
    'P23': dict(source='check_P23.cpp', variants=['release', 'asan', 'portable', 'tsan'], variant_scale={'asan': 0.15, 'portable': 0.1, 'tsan': 0.15}),
    'P24': dict(source='check_P24.cpp', variants=['release', 'tsan'], variant_scale={'tsan': 0.2}, env={'MALLOC_PERTURB_': '0'}),
    'P25': dict(source='check_P25.cpp', variants=RA, variant_scale={'asan': 0.15}, env={'MALLOC_PERTURB_': '0'}, tools=['encode_vector', 'decode_vector', 'compare_vector', 'generate_constant_vector', 'generate_random_node_list', 'generate_random_source_times', 'generate_test_queries']),
    'P26': dict(source='check_P26.cpp', variants=RA, variant_scale={'asan': 0.15}, env={'MALLOC_PERTURB_': '0'}, tools=['convert_road_dimacs_graph', 'convert_road_dimacs_coordinates', 'export_road_dimacs_graph', 'run_dijkstra', 'compute_contraction_hierarchy', 'run_contraction_hierarchy_query', 'examine_ch', 'show_path', 'randomly_permute_nodes', 'compute_geographic_distance_weights', 'compute_nested_dissection_order', 'graph_to_dot', 'graph_to_svg', 'generate_dijkstra_rank_test_queries']),
    'P27': dict(source='check_P27.cpp', variants=RA, variant_scale={'asan': 0.1}),
}
