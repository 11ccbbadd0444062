#!/usr/bin/env python3
"""automut.py OUT N SEED [FILE...]: make N random one-token changes to original lines of the given /repo files (default: all in MAP),
run the mapped checks on private bind-mounted copies (J at a time), and append survivors/killed to OUT (one line each)."""
import sys, os, re, random, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get('J', '3')); W = os.environ.get('W', '4')
G = 'geomc/'
MAP = {
 'Deque.h': 'C01', 'SmallStorage.h': 'C02', 'Storage.h': 'C03', 'Tree.h': 'C04 C05', 'Hash.h': 'C06', 'function/functiondetail/SipHash.cpp': 'C06',
 'linalg/vecdetail/VecBase.h': 'C07 C08', 'linalg/vecdetail/VecStd.h': 'C07', 'linalg/vecdetail/Vec2.h': 'C07 C08', 'linalg/vecdetail/Vec3.h': 'C07 C08', 'linalg/vecdetail/Vec4.h': 'C07',
 'linalg/Ray.h': 'C08', 'linalg/Orthogonal.h': 'C19 C08', 'linalg/Quaternion.h': 'C10', 'linalg/AffineTransform.h': 'C11', 'linalg/Matrix.h': 'C12 C14 C13',
 'linalg/mtxdetail/MatrixMult.h': 'C12', 'linalg/mtxdetail/MatrixArithmetic.h': 'C12', 'linalg/mtxdetail/MatrixCopy.h': 'C12 C13', 'linalg/mtxdetail/MatrixGlue.h': 'C12', 'linalg/mtxdetail/MatrixFunctionImpl.h': 'C12 C13',
 'linalg/mtxtypes/DiagMatrix.h': 'C12 C13', 'linalg/mtxtypes/SimpleMatrix.h': 'C13 C12', 'linalg/mtxdetail/MatrixIterator.h': 'C13', 'linalg/mtxdetail/MatrixBase.h': 'C13 C12', 'linalg/mtxdetail/MatrixLayout.h': 'C13 C12',
 'linalg/mtxdetail/MatrixDet.h': 'C14', 'linalg/mtxdetail/MatrixInv.h': 'C14', 'linalg/mtxtypes/PermutationMatrix.h': 'C15', 'linalg/LUDecomp.h': 'C16 C17', 'linalg/Cholesky.h': 'C18',
 'function/Utils.h': 'C20 C22', 'function/functiondetail/UtilDetail.h': 'C20 C23', 'function/functiondetail/DualImpl.h': 'C21', 'function/functiondetail/DualFunctions.h': 'C21', 'function/Raster.h': 'C23', 'function/functiondetail/RasterDetail.h': 'C23',
 'function/PerlinNoise.h': 'C24', 'function/functiondetail/PerlinDetail.h': 'C24', 'function/Basis.h': 'C25', 'function/SphericalHarmonics.h': 'C26', 'function/Path.h': 'C27',
 'random/Random.h': 'C28', 'random/Random.cpp': 'C28', 'random/LCRand.cpp': 'C28', 'random/MTRand.cpp': 'C28', 'random/Xorshiro.h': 'C28', 'random/randomdetail/RandomSpecialize.h': 'C28', 'random/RandomTools.h': 'C29 C30', 'random/RandomTools.cpp': 'C30 C29',
 'shape/Rect.h': 'C32 C33 C34 C35 C40', 'shape/Sphere.h': 'C33 C34 C35 C40', 'shape/Capsule.h': 'C33 C34 C40', 'shape/Cylinder.h': 'C33 C34 C35', 'shape/Dilated.h': 'C33 C34 C36', 'shape/Extruded.h': 'C33 C34 C35', 'shape/Frustum.h': 'C33 C34 C35',
 'shape/Oriented.h': 'C36 C40', 'shape/Plane.h': 'C37 C36', 'shape/Simplex.h': 'C38 C33 C34 C35 C36', 'shape/shapedetail/SimplexProject.h': 'C38 C33 C39', 'shape/Intersect.h': 'C39', 'shape/shapedetail/SeparatingAxis.h': 'C40 C39', 'shape/Shape.h': 'C34 C36 C39',
 'shape/GridIterator.h': 'C41', 'shape/BinLatticePartition.h': 'C42', 'shape/shapedetail/IndexHelpers.h': 'C36 C41 C42',
}
OPS = [(r' <= ', [' < ', ' >= ']), (r' >= ', [' > ', ' <= ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' == ', [' != ']), (r' != ', [' == ']),
 (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' * ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']), (r' \*= ', [' /= ']), (r' /= ', [' *= ']),
 (r'(?<=[^\w.])([0-9])(?=[^\w.])', ['+1', '-1']), (r'std::min\b', ['std::max']), (r'std::max\b', ['std::min']), (r'!(?=[a-z(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'(?<=[ (])-(?=[a-z(_])', ['']), (r'\+\+', ['--']), (r'\bstd::sin\b', ['std::cos']), (r'\bstd::cos\b', ['std::sin']), (r'\.lo\b', ['.hi']), (r'\.hi\b', ['.lo']), (r'\bbreak;', ['']), (r'\bcontinue;', ['']), (r' >> ', [' << ']), (r' << ', [' >> ']), (r' \^ ', [' | ']), (r' \| ', [' & ', ' ^ ']), (r' & ', [' | '])]
def mutants(f):
    L = open(f'/repo/{f}', newline='').read().split('\n'); out = []; blk = False
    for i, l in enumerate(L):
        s = l.strip()
        if '/*' in s and '*/' not in s: blk = True; continue
        if blk:
            if '*/' in s: blk = False
            continue
        if s.startswith(('//', '#', '*', 'template', 'typedef', 'using', 'namespace', 'static_assert', 'requires', 'os <<', '<<', 'friend')) or not s or 'ostream' in s or 'static_assert' in s or 'os <<' in s: continue
        code = l.split('//')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    t = str(int(m[0]) + int(r)) if re.fullmatch(r'[+-]1', r) else r
                    if t.startswith('-') and re.fullmatch(r'[+-]1', r): t = '(' + t + ')'
                    out.append((f, i, l, l[:m.start()] + t + l[m.end():]))
        if re.match(r'\s*[\w.\[\]>()*-]+(\s*[-+*/]?=\s*[^=]|\().*;\s*$', code) and not re.match(r'\s*(return|for|while|if|throw|else|const|auto|T |V |index_t |bool |int |break|continue)\b', code): out.append((f, i, l, re.match(r'\s*', l)[0] + ';'))
    return out
def run(m):
    f, i, a, b = m; d = tempfile.mkdtemp(prefix='amut.', dir='/tmp'); res = 'SURVIVED'; t = time.time()
    try:
        subprocess.check_call(f'mkdir {d}/repo {d}/ev {d}/rp; cd /repo && tar cf - --exclude=./_build --exclude=./.git . | tar xf - -C {d}/repo', shell=True)
        p = f'{d}/repo/{f}'; L = open(p, newline='').read().split('\n'); assert L[i] == a; L[i] = b + ('\r' if a.endswith('\r') and not b.endswith('\r') else ''); open(p, 'w', newline='').write('\n'.join(L))
        for c in MAP[f[len(G):]].split():
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/ev /verif/evidence && mount --bind {d}/rp /verif/replays && cd /verif && timeout 600 python3 check.py {c} --tier quick --seed 1 --workers {W}'], capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'killed ' + c; break
            if r.returncode == 2: res = 'nobuild ' + c; break
            if r.returncode != 0: res = f'ODD{r.returncode} {c}'; break
    finally: subprocess.run(['rm', '-rf', d])
    line = f'{res} | {f}:{i+1} | {a.strip()} => {b.strip()} | {time.time()-t:.0f}s\n'
    open(sys.argv[1], 'a').write(line); return res
if __name__ == '__main__':
    n = int(sys.argv[2]); rnd = random.Random(int(sys.argv[3])); files = sys.argv[4:] or list(MAP); L = []
    for f in files:
        ms = mutants(G + f); by = {}
        for m in ms: by.setdefault(m[1], []).append(m)
        k = max(2, round(n * len(by) / 100)) if not sys.argv[4:] else n   # default: N mutants per hundred mutable lines
        for ln in rnd.sample(sorted(by), min(k, len(by))): L.append(rnd.choice(by[ln]))
    rnd.shuffle(L); print(len(L), 'mutants', flush=True)
    if os.environ.get('DRY'): sys.exit()
    with ThreadPoolExecutor(J) as ex: R = list(ex.map(run, L))
    for k in sorted(set(R)): print(k, R.count(k))
