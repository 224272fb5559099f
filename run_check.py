#!/usr/bin/env python3
"""Builds one check from /repo's working tree, runs it and writes its evidence.

  run_check.py P01 [quick|thorough]      decide a property
  run_check.py --replay FILE             re-run a saved counterexample
  run_check.py --setup                   create the output directories
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

ASAN = ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,integer-divide-by-zero,float-cast-overflow,shift,return,bool '
        '-fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR=1')
ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=0',
            'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98'}
FALLBACK = '-DROUTING_KIT_NO_POSIX -DROUTING_KIT_NO_GCC_EXTENSIONS -DROUTING_KIT_NO_ALIGNED_ALLOC -DROUTING_KIT_ASSUME_LITTLE_ENDIAN '
VARIANTS = {
    # the flags the project ships with (generate_make_file), with a portable -march
    'release': dict(repo='-DNDEBUG -march=x86-64-v2 -ffast-math -O3', harness='-O2 -DNDEBUG', omp=True, env={'MALLOC_PERTURB_': '137'}),
    'asan': dict(repo='-DNDEBUG -march=x86-64-v2 ' + ASAN, harness=ASAN + ' -DNDEBUG', omp=True, env=ASAN_ENV),
    # the documented fallbacks for other compilers and systems (doc/Setup.md)
    'portable': dict(repo='-DNDEBUG -march=x86-64-v2 ' + FALLBACK + ASAN, harness=FALLBACK + ASAN + ' -DNDEBUG', omp=True, env=ASAN_ENV),
    # thread sanitizer: no OpenMP (libgomp is not instrumented)
    'tsan': dict(repo='-DNDEBUG -march=x86-64-v2 -O1 -g1 -fsanitize=thread', harness='-O1 -g1 -DNDEBUG -fsanitize=thread', omp=False,
                 env={'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}),
}


def includes(path):
    try:
        text = open(path, errors='replace').read()
    except OSError:
        return []
    return re.findall(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', text, re.M)


def closure(roots):
    """Source files of /repo reachable from the given headers/sources by #include, where X.h pulls in src/X.cpp."""
    inc, src = os.path.join(REPO, 'include'), os.path.join(REPO, 'src')
    todo, seen, units = list(roots), set(), []
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for i in includes(f):
            for cand in (os.path.join(inc, i), os.path.join(src, i)):
                if os.path.exists(cand):
                    todo.append(cand)
                    base = os.path.splitext(os.path.basename(i))[0]
                    cpp = os.path.join(src, base + '.cpp')
                    if os.path.exists(cpp) and cpp not in seen:
                        todo.append(cpp)
                        units.append(cpp)
    return sorted(set(units))


def library_sources():
    src = os.path.join(REPO, 'src')
    out = []
    for f in sorted(os.listdir(src)):
        if f.endswith('.cpp'):
            text = open(os.path.join(src, f), errors='replace').read()
            if not re.search(r'^\s*int\s+main\s*\(', text, re.M):
                out.append(os.path.join(src, f))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


CCACHE = 'ccache ' if shutil.which('ccache') and os.environ.get('VERIF_CCACHE') else ''


def compile_unit(job):
    src, obj, flags = job
    r = sh(f'{CCACHE}g++ {flags} -c {src} -o {obj}')
    return (src, r.returncode, r.stdout)


def tools_build(outdir, tools, variant):
    """Builds command line programs of /repo (src/<tool>.cpp); the rest of src is compiled once."""
    v = VARIANTS[variant]
    d = os.path.join(outdir, variant + '.tools')
    os.makedirs(d, exist_ok=True)
    omp = ' -fopenmp' if v['omp'] else ''
    flags = f"-std=c++11 -w -I{REPO}/include {v['repo']}{omp}"
    mains = [(os.path.join(REPO, 'src', t + '.cpp'), os.path.join(d, t + '.main.o'), flags) for t in tools]
    units = [(u, os.path.join(d, os.path.basename(u) + '.o'), flags) for u in library_sources()]
    with ThreadPoolExecutor(8) as ex:
        for src, rc, out in ex.map(compile_unit, units + mains):
            if rc != 0:
                raise RuntimeError(f'compiling {src} failed:\n{out}')
    san = ' '.join(re.findall(r'-fsanitize=\S+', v['harness']))
    lib = os.path.join(d, 'lib.a')
    sh(f"rm -f {lib}; ar rcs {lib} {' '.join(u[1] for u in units)}")
    res = {}
    for t, (_, obj, _) in zip(tools, mains):
        res[t] = os.path.join(d, t)
        r = sh(f'g++ {obj} {lib} -o {res[t]} {san}{omp} -lz -pthread -lm')
        if r.returncode != 0:
            raise RuntimeError(f'linking {t} failed:\n{r.stdout}')
    return res


def build(outdir, variant, main_source, name, is_tool=False):
    v = VARIANTS[variant]
    d = os.path.join(outdir, variant + '.' + name)
    os.makedirs(d, exist_ok=True)
    omp = ' -fopenmp' if v['omp'] else ''
    repo_flags = f"-std=c++11 -w -I{REPO}/include {v['repo']}{omp}"
    har_flags = f"-std=c++17 -w -I{REPO}/include -I{REPO}/src -I{HARNESS} {v['harness']}{omp}"
    if is_tool:
        har_flags = repo_flags
    # the harness headers are scanned as well
    roots = [main_source] + [os.path.join(HARNESS, h) for h in os.listdir(HARNESS) if h.endswith('.hpp') and h in set(all_harness_includes(main_source))]
    for units in (closure(roots), library_sources()):
        jobs = [(main_source, os.path.join(d, 'main.o'), har_flags)]
        jobs += [(u, os.path.join(d, os.path.basename(u) + '.o'), repo_flags) for u in units]
        with ThreadPoolExecutor(8) as ex:
            for src, rc, out in ex.map(compile_unit, jobs):
                if rc != 0:
                    raise RuntimeError(f'compiling {src} failed:\n{out}')
        exe = os.path.join(d, name)
        objs = ' '.join(j[1] for j in jobs)
        san = ' '.join(re.findall(r'-fsanitize=\S+', v['harness']))
        r = sh(f'g++ {objs} -o {exe} {san}{omp} -lz -pthread -lm')
        if r.returncode == 0:
            return exe
    raise RuntimeError(f'linking {name} failed:\n{r.stdout}')


def all_harness_includes(path, seen=None):
    seen = seen if seen is not None else set()
    for i in includes(path):
        p = os.path.join(HARNESS, i)
        if os.path.exists(p) and i not in seen:
            seen.add(i)
            all_harness_includes(p, seen)
    return seen


def main():
    args = sys.argv[1:]
    replay = None
    if args and args[0] == '--setup':
        for d in ('build', 'evidence', 'replays'):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        return 0 if shutil.which('g++') else 2
    if args and args[0] == '--replay':
        replay = os.path.abspath(args[1])
        meta = dict(l.split(' ', 1) for l in open(replay).read().splitlines() if ' ' in l)
        pid, tier, variants = meta['property'].strip(), meta['tier'].strip(), [meta['variant'].strip()]
        cfg = CHECKS[pid]
    else:
        pid = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
        cfg = CHECKS[pid]
        variants = cfg['variants']
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'{pid}.', dir=BUILD)
    results, violation, build_error = [], None, None
    try:
        try:
            with ThreadPoolExecutor(4) as ex:
                def build_variant(v):
                    try:
                        return build(work, v, os.path.join(HARNESS, cfg['source']), 'check')
                    except RuntimeError:
                        if v != 'portable' or replay:
                            raise
                        return None  # the fallbacks do not build: decide the property on the other builds
                exes = list(ex.map(build_variant, variants))
                if None in exes:
                    sys.stderr.write('note: the build with the portable fallbacks failed and is left out\n')
                    variants = [v for v, e in zip(variants, exes) if e]
                    exes = [e for e in exes if e]
                tool_dirs = {}
                if cfg.get('tools'):
                    tool_dirs = dict(zip(variants, ex.map(lambda v: tools_build(work, cfg['tools'], v), variants)))
        except RuntimeError as e:
            build_error = str(e)
        if build_error:
            sys.stderr.write(build_error + '\n')
            sys.stderr.write('the check could not be built from the current tree\n')
            return 2
        for v, exe in zip(variants, exes):
            scratch = os.path.join(work, 'scratch.' + v)
            os.makedirs(scratch)
            out = os.path.join(work, f'result.{v}.json')
            env = dict(os.environ)
            env.setdefault('OMP_WAIT_POLICY', 'passive')
            env.setdefault('OMP_DYNAMIC', 'false')
            env.update(VARIANTS[v]['env'])
            env['OMP_NUM_THREADS'] = '4'
            env.update(cfg.get('env', {}))
            for t, p in tool_dirs.get(v, {}).items():
                env['TOOL_' + t] = p
            cmd = [exe, '--tier', tier, '--variant', v, '--scratch', scratch, '--out', out, '--seed', str(seed),
                   '--replay-dir', os.path.join(VERIF, 'replays'), '--jobs', str(cfg.get('jobs', 8))]
            vs = cfg.get('variant_scale', {}).get(v, 1.0) * scale
            cmd += ['--scale', repr(vs), '--wall', str((160 if tier == 'quick' else 3000) // len(variants))]
            if os.environ.get('VERIF_ONLY'):
                cmd += ['--only', os.environ['VERIF_ONLY']]
            if replay:
                cmd += ['--replay', replay]
            r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL)
            if replay:
                return r.returncode
            res = json.load(open(out))
            results.append(res)
            if res['violated']:
                violation = res
                break
            if r.returncode != 0:
                sys.stderr.write(f'driver exited with {r.returncode}\n')
                return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    labels = {}
    for r in results:
        for k, n in r['labels'].items():
            labels.setdefault(r['variant'], {})[k] = n
    samples = []
    for r in results:
        samples += r['samples']
    known = known_findings(pid)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
            'rule': results[0]['rule'] if results else '',
            'samples': samples[:24],
            'builds': {r['variant']: {'evaluations': r['evaluations'], 'nontrivial': r['nontrivial'], 'discarded': r['discarded'], 'wall_ms': r['wall_ms'], 'unreproduced': r['unreproduced_messages'][:5]} for r in results},
            'distribution': labels,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for k in known:
        print(k)
    if violation:
        print(f"VIOLATION property={pid} replay={violation['replay']}")
        print(f"  {violation['message']}")
        return 1
    c = evidence['coverage']
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={c['evaluations']} distinct_nontrivial={c['distinct_nontrivial']} wall={evidence['wall_s']}s")
    for r in results:
        for m in r['unreproduced_messages'][:5]:
            print(f"  note: a failure did not reproduce and was dropped: {m}")
    return 0


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if l.startswith('known: property=' + pid + ' '):
                out.append('KNOWN-FINDING: ' + l[len('known: '):].strip())
    except OSError:
        pass
    return out


if __name__ == '__main__':
    sys.exit(main())
