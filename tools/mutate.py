#!/usr/bin/env python3
"""Mutation sampling of /repo's sources, to find what the checks miss.
usage: mutate.py OUT.jsonl COUNT SLOTS SEED [file-substring ...]   (works in /tmp/mut, from a copy of /verif)"""
import json, os, random, re, shutil, subprocess, sys, threading, time
out, count, slots, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); only = sys.argv[5:]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mut%d' % os.getpid(); os.makedirs(M)
MAP = {
 'contraction_hierarchy': ['P01', 'P04', 'P05', 'P02', 'P06', 'P03'], 'customizable_contraction_hierarchy': ['P07', 'P08', 'P09'], 'dijkstra': ['P10'], 'nested_dissection': ['P11'],
 'bit_vector': ['P12', 'P18'], 'bit_select': ['P13','P12'], 'emulate_gcc_builtin': ['P12'], 'id_mapper': ['P13'], 'filter': ['P13'], 'sort': ['P14'], 'permutation': ['P14'], 'inverse_vector': ['P14'], 'graph_util': ['P14'], 'min_max': ['P14'],
 'id_queue': ['P15', 'P10'], 'id_set_queue': ['P15'], 'timestamp_flag': ['P15', 'P03', 'P10'], 'geo_position_to_node': ['P16'], 'geo_dist': ['P16'], 'strongly_connected_component': ['P17'],
 'vector_io': ['P18', 'P06'], 'osm_decoder': ['P19', 'P20'], 'protobuf': ['P19'], 'tag_map': ['P19', 'P22'], 'osm_graph_builder': ['P20', 'P21', 'P22'], 'osm_profile': ['P22', 'P21'], 'osm_simple': ['P22'],
 'buffered_asynchronous_reader': ['P23', 'P19'], 'file_data_source': ['P23', 'P19'], 'osm_extract': ['P22'], 'verify': ['P27','P26'],
 'encode_vector': ['P25'], 'decode_vector': ['P25'], 'compare_vector': ['P25'], 'generate_constant_vector': ['P25'], 'generate_random_node_list': ['P25'], 'generate_random_source_times': ['P25'], 'generate_test_queries': ['P25'],
}
for t in 'convert_road_dimacs_graph convert_road_dimacs_coordinates export_road_dimacs_graph run_dijkstra compute_contraction_hierarchy run_contraction_hierarchy_query examine_ch show_path randomly_permute_nodes compute_geographic_distance_weights compute_nested_dissection_order graph_to_dot graph_to_svg generate_dijkstra_rank_test_queries'.split(): MAP[t] = ['P26']
REPO = os.environ.get('MUT_REPO', '/repo'); work = os.path.join(M, 'base'); os.makedirs(work)
for d in ('src', 'include'): shutil.copytree(f'{REPO}/{d}', f'{work}/{d}')
SWAPS = [(r'(?<![<>=!\-+*/&|])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![<>=!\-])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![\w.])(\d+)(?![\w.])', None),
 (r'\+\s*1\b', ''), (r'-\s*1\b', ''), (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', '-'), (r'(?<=[\w\])])-(?=[\w(])', '+'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bmin_to\b', 'max_to'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bforward', 'backward'), (r'\bbackward', 'forward'),
 (r'\bhead\b', 'tail'), (r'\btail\b', 'head'), (r'\blatitude\b', 'longitude'), (r'\blongitude\b', 'latitude'), (r'\bsource\b', 'target'), (r'\btarget\b', 'source'), (r'\bfront\(', 'back('), (r'\bback\(', 'front('), (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'!(?=[\w(])', ''), (r'\+\+', '--'), (r'\|=', '&='), (r'&=', '|='), (r'<<', '>>'), (r'>>', '<<'), (r'\+=', '-='), (r'(?<=[^=!<>+\-*/|&])= ', '+= ')]
def candidates():
    for d in ('src', 'include/routingkit'):
        for f in sorted(os.listdir(f'{work}/{d}')):
            b = os.path.splitext(f)[0]
            if b not in MAP or (only and not any(o in f'{d}/{f}' for o in only)): continue
            lines = open(f'{work}/{d}/{f}').read().split('\n'); comment = False
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith('/*'): comment = True
                if comment:
                    if '*/' in s: comment = False
                    continue
                if not s or s.startswith(('//', '#', 'assert', 'static_assert', 'template', 'using', 'cout', 'cerr', 'log_message', '<<', 'throw', 'namespace', 'public', 'private', 'friend')) or 'log_message' in s or 'assert' in s or 'timer' in s or 'Usage' in s or 'ENSURE' in s or 'cout' in s: continue
                for p, r in SWAPS:
                    for m in re.finditer(p, l):
                        if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
                        x = str(int(m.group(1)) + 1) if r is None else r
                        yield (f'{d}/{f}', i, l[:m.start()] + x + l[m.end():], b)
                if re.match(r'^[\w\]\[().>\-+*:, <&|^!/"\']+(=|\+\+|--|\().*;$', s) and not re.match(r'^(return|std::vector|unsigned|const|auto|uint|int|bool|float|double|size_t|BitVector|typedef|explicit|struct|class|char)\b', s): yield (f'{d}/{f}', i, '', b)
                m = re.match(r'^(\s*(?:\}\s*else\s+)?if\()(.*)(\)\s*\{?)$', l)
                if m:
                    yield (f'{d}/{f}', i, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3), b); yield (f'{d}/{f}', i, m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3), b)
                if re.match(r'^(continue|break|return);$', s): yield (f'{d}/{f}', i, '', b)
C = list(candidates()); rng = random.Random(seed); rng.shuffle(C)
# spread over files: at most a share per file proportional to the square root of its candidates
by = {}
for c in C: by.setdefault(c[0], []).append(c)
tot = sum(len(v) ** 0.5 for v in by.values()); pick = []
for k, v in by.items(): pick += v[:max(2, int(count * len(v) ** 0.5 / tot) + 1)]
rng.shuffle(pick); pick = pick[:count]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r['file'], r['line'], r['new']))
lock = threading.Lock(); it = iter([p for p in pick if (p[0], p[1] + 1, p[2]) not in done])
print(len(C), 'candidates', len(pick), 'picked', flush=True)
def slot(k):
    R, V = f'{M}/r{k}', f'{M}/v{k}'
    shutil.copytree(work, R); os.makedirs(V)
    for f in ('run_check.py', 'checks.py', 'KNOWN_FINDINGS.txt'): shutil.copy(f'{VERIF}/{f}', V)
    shutil.copytree(f'{VERIF}/harness', f'{V}/harness')
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=f'{V}/build', VERIF_CCACHE='1', CCACHE_DIR='/tmp/ccache', CCACHE_MAXSIZE='6G', CCACHE_NOHASHDIR='1', VERIF_SEED='1'); env.pop('VERIF_TIER', None)
    while True:
        with lock:
            c = next(it, None)
        if c is None: return
        f, i, new, b = c; lines = open(f'{work}/{f}').read().split('\n'); old = lines[i]; lines[i] = new; open(f'{R}/{f}', 'w').write('\n'.join(lines))
        res, t0 = [], time.time()
        for p in MAP[b]:
            try: rc = subprocess.run(['python3', f'{V}/run_check.py', p, 'quick'], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired: res.append((p, 'timeout')); break
            res.append((p, rc.returncode))
            if rc.returncode != 0: break
        shutil.copy(f'{work}/{f}', f'{R}/{f}')
        with lock: open(out, 'a').write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new, res=res, s=round(time.time() - t0))) + '\n')
ts = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(M)
