#!/usr/bin/env python3
"""Mechanical mutants of the repository's sources: which of them does no check notice?
usage: mutate.py file ... (paths relative to the repository); results in /tmp/mut/<file>.log"""
import concurrent.futures, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
FOR = {
    'src/reference_kernels/naive.hpp': ['C01'], 'src/reference_kernels/kernel.hpp': ['C02'],
    'src/variants/components/recursive.cpp': ['C03', 'C05'], 'src/variants/components/multiplier.cpp': ['C03', 'C05'],
    'src/variants/single.cpp': ['C03'], 'src/variants/static_improved.cpp': ['C04', 'C05'],
    'src/variants/pseudodynamic.cpp': ['C05'], 'src/variants/algorithms.hpp': ['C06'], 'src/variants/looped.hpp': ['C06'],
    'src/variants/semi.cpp': ['C06'], 'src/variants/combined.cpp': ['C07', 'C19'], 'src/reference_kernels/kernel_tiled.cpp': ['C07', 'C19'],
    'src/variants/index_iterator.hpp': ['C08'], 'src/memory_layout/index_iterator.hpp': ['C08'],
    'src/memory_layout/loop_nest.hpp': ['C09'], 'learning/MetaProgrammingCPP.cpp': ['C09'],
    'src/memory_layout/tile_array.hpp': ['C10', 'C16'], 'src/memory_layout/util.hpp': ['C10', 'C11'],
    'src/memory_layout/tile_view.hpp': ['C11'], 'src/memory_layout/tile_iterator.hpp': ['C11'],
    'src/util/create_identity_matrix.hpp': ['C12'], 'src/util/create_random_matrix.hpp': ['C12'], 'src/util/pattern_matrices.hpp': ['C12'],
    'src/util/transpose_matrix.hpp': ['C12'], 'src/util/util.hpp': ['C17'], 'src/util/matrix_multiplication_exception.hpp': ['C16'],
    'src/memory_layout/memory_layout_exception.hpp': ['C16'], 'src/aligned_allocator.hpp': ['C13'],
    'otherExperiments/benchmark.cpp': ['C18', 'C19'], 'src/matrix_multiply_application/matrix_multiply.cpp': ['C15', 'C19'],
}
for m in ['ASM', 'Blocked', 'Counter', 'Exchanged', 'GPU', 'GPUASM', 'IntrinLoop', 'Naive', 'Register', 'Transposed']:
    FOR['otherExperiments/mult%s.cpp' % m] = ['C14']
RULES = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<=\s)<(?=\s)', ['<=']), (r'(?<=\s)>(?=\s)', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
         (r'(?<=\s)\+(?=\s(?!0))', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['+']), (r'(?<=\s)/(?=\s)', ['*']), (r'(?<=\s)%(?=\s)', ['/']),
         (r'\+=', ['-=', '=']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![\w.\[])\b0\b(?![.x])', ['1']), (r'(?<![\w.])\b1\b(?!\.)', ['0', '2']),
         (r'\b([2-9]|[1-9]\d+)\b', ['NUM']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<=\[)(\w+)(?= \*)', ['SWAP']), (r'!(?=\w)', [''])]


def mutants(text):
    lines = text.split('\n')
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith('//') or s.startswith('#include') or s.startswith('template') or 'using ' in s or s.startswith('namespace'):
            continue
        code = l.split('//')[0]
        seen = set()
        for rx, reps in RULES:
            for m in re.finditer(rx, code):
                for r in reps:
                    if r == 'NUM':
                        r = str(int(m.group(0)) + 1)
                    if r == 'SWAP':
                        r = {'i': 'j', 'j': 'i', 'x': 'y', 'y': 'x'}.get(m.group(0), m.group(0))
                    new = code[:m.start()] + r + code[m.end():]
                    if new != code and new not in seen:
                        seen.add(new)
                        yield n, new
        if s.endswith(';') and not re.match(r'(return|typedef|break|continue|throw)\b', s) and s.count('(') == s.count(')') and '{' not in s and '}' not in s:
            yield n, ''


def one(job):
    f, k, n, new, text = job
    d = '/tmp/mut/w%d' % os.getpid()
    if not os.path.exists(d):
        subprocess.run(['git', 'clone', '-q', REPO, d], check=True)
    lines = text.split('\n')
    old = lines[n]
    lines[n] = new
    open(os.path.join(d, f), 'w').write('\n'.join(lines))
    res = []
    for p in FOR[f]:
        for modes in ('fast', 'asan,tsan'):
            r = subprocess.run(['nice', 'python3', os.path.join(HERE, '..', 'run.py'), p], env=dict(os.environ, VP_REPO=d, VP_BUDGET='200', VP_MODES=modes), capture_output=True, text=True)
            if r.returncode:
                break
        res.append('%s=%d' % (p, r.returncode))
        if r.returncode in (1, 2):
            break
    open(os.path.join(d, f), 'w').write(text)
    return n + 1, old.strip(), new.strip(), res


def main():
    par = int(os.environ.get('MUT_PAR', '4'))
    with concurrent.futures.ProcessPoolExecutor(par) as ex:
        for f in sys.argv[1:]:
            text = open(os.path.join(REPO, f)).read()
            jobs = [(f, k, n, new, text) for k, (n, new) in enumerate(mutants(text))]
            lim = int(os.environ.get('MUT_MAX', '0'))
            if lim and len(jobs) > lim:
                step = len(jobs) / lim
                jobs = [jobs[int(i * step)] for i in range(lim)]
            killed = nobuild = 0
            out = open('/tmp/mut/%s.log' % f.replace('/', '_'), 'w')
            for line, old, new, res in ex.map(one, jobs):
                last = res[-1][-1]
                if last == '1':
                    killed += 1
                elif last == '2':
                    nobuild += 1
                if last != '1':
                    out.write('%s %d: %s  =>  %s  %s\n' % ('SURVIVED' if last == '0' else 'NOANSWER', line, old, new or '(deleted)', ' '.join(res)))
                    out.flush()
            out.write('%s: %d mutants, %d killed, %d without answer\n' % (f, len(jobs), killed, nobuild))
            out.close()
            print(open(out.name).read().splitlines()[-1], flush=True)


if __name__ == '__main__':
    main()
