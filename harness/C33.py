# Scenarios of C33, run by harness/C33.cpp: the Binaural Synthesis Toolkit.
import sys, os, types, warnings, itertools, numpy as np
warnings.simplefilter('ignore')
import visr, efl, rrl, rcl, pml, rbbl, objectmodel as om, panning, panningdsp, reverbobject, signalflows
sys.modules.setdefault('h5py', types.ModuleType('h5py')) # SOFA files are not read here
for m in ('squaternion', 'serial'):
    if m not in sys.modules: sys.modules[m] = types.ModuleType(m); sys.modules[m].Quaternion = None
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/python/packages'))
import visr_bst
from visr_bst import util, hoa_components as hoa
f32 = np.float32; EC = pml.EmptyParameterConfig(); DB, SD, MQ = pml.DoubleBufferingProtocol, pml.SharedDataProtocol, pml.MessageQueueProtocol
class Comp(visr.CompositeComponent): pass
def near(c, a, b, what, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float); c.compared(max(1, b.size))
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol): c.fail('%s: %s instead of %s' % (what, a.tolist(), b.tolist()))
def Rx(a): return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
def Ry(a): return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
def Rz(a): return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
def head(y, p, r): return Rz(y) @ Ry(p) @ Rx(r) # columns: front, left and top of the head
def legendre(n, x): return np.polynomial.legendre.Legendre.basis(n)(x)
def sh1(N, d): # real spherical harmonics of a direction up to order 2 (ACN, N3D/sqrt(4 pi))
    x, y, z = d; k = np.sqrt(1 / (4 * np.pi))
    Y = [1, 3 ** .5 * y, 3 ** .5 * z, 3 ** .5 * x, 15 ** .5 * x * y, 15 ** .5 * y * z, 5 ** .5 / 2 * (3 * z * z - 1), 15 ** .5 * x * z, 15 ** .5 / 2 * (x * x - y * y)]
    return k * np.array(Y[:(N + 1) ** 2])
def polar(d): x, y, z = d; return np.arctan2(y, x), np.arcsin(np.clip(z / np.linalg.norm(d), -1, 1))
def sh(N, d): az, el = polar(d); return util.allSphHarmRealACN(N, np.array([np.pi / 2 - el]), np.array([az]))[:, 0]
def wire(top, comp, ports):
    pp = {p.name: p for p in comp.parameterPorts}
    if sorted(pp) != sorted(n for _, n, *_ in ports): return None, sorted(pp)
    top.keep = []
    for kind, name, par, proto, cfg in ports:
        q = (visr.ParameterInput if kind == 'in' else visr.ParameterOutput)(name, top, par.staticType, proto.staticType, cfg); top.keep.append(q)
        top.parameterConnection(*((q, pp[name]) if kind == 'in' else (pp[name], q)))
    flow = rrl.AudioSignalFlow(top)
    return flow, {name: (flow.parameterReceivePort if kind == 'in' else flow.parameterSendPort)(name) for kind, name, *_ in ports}
D = 45 * np.pi / 180
DIRS = [np.array(v, float) / np.linalg.norm(v) for v in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 0), (-2, 1, 1), (1, -1, 2), (0.5, -2, -1), (-1, -1, -3)]]
# Rotations and spherical harmonics as functions.
def rotations(c, quick):
    y, p, r = [(c.choose(8, 'yaw') - 3) * D * 0.9, (c.choose(5, 'pitch') - 2) * D * 0.8, (c.choose(5 if quick else 8, 'roll') - 2) * D]; H = head(y, p, r); a = util.calcRotationMatrix(np.array([y, p, r]))
    near(c, a, H.T, 'rotation matrix')
    N = c.choose(4 if quick else 7, 'order'); R1 = util.rotationMatrixReorderingACN(a); all_ = util.allSphericalHarmonicsRotationMatrices(N, R1); c.compared()
    if [np.asarray(m).size for m in all_] != [(2 * n + 1) ** 2 for n in range(N + 1)]: c.fail('sizes of the rotation matrices: %s' % [np.asarray(m).shape for m in all_])
    for n in range(N + 1):
        M = np.asarray(all_[n]).reshape(2 * n + 1, 2 * n + 1); near(c, M @ M.T, np.eye(2 * n + 1), 'orthogonality')
        near(c, np.asarray(util.sphericalHarmonicsRotationMatrix(n, R1)).reshape(-1), M.reshape(-1), 'rotation matrix of one order')
        if n > 1: near(c, util.rotation_functions.HOARotationMatrixCalc(n, np.asarray(all_[n - 1]).reshape(2 * n - 1, 2 * n - 1), R1), M, 'reference rotation matrix', 1e-4)
        for d in DIRS: near(c, M @ sh(N, d)[n * n:(n + 1) ** 2], sh(N, H.T @ d)[n * n:(n + 1) ** 2], 'rotated spherical harmonics')
    c.state('%d %d' % (N, round(y * 100)))
def harmonics(c, quick):
    N = c.choose(5 if quick else 9, 'order'); i = c.choose(len(DIRS), 'direction'); j = c.choose(len(DIRS), 'other'); d, e = DIRS[i], DIRS[j]; s = 0.5 + c.choose(3, 'distance')
    if N <= 2: near(c, sh(N, d), sh1(N, d), 'spherical harmonics')
    for n in range(N + 1): near(c, sh(N, d)[n * n:(n + 1) ** 2] @ sh(N, e)[n * n:(n + 1) ** 2], (2 * n + 1) / (4 * np.pi) * legendre(n, d @ e), 'addition theorem')
    for n in range(N + 1):
        for m in range(-n, n + 1): near(c, util.sphHarmReal(n, m, np.array([np.pi / 2 - polar(d)[1]]), np.array([polar(d)[0]]))[0], sh(N, d)[n * n + n + m], 'one spherical harmonic')
    p = s * np.array([d, e]); q = util.cart2sph(p[:, 0], p[:, 1], p[:, 2]); near(c, q, np.array([[*polar(d), s], [*polar(e), s]]).T, 'spherical coordinates'); near(c, util.sph2cart(q.T), p, 'Cartesian coordinates')
    near(c, [util.deg2rad(90.0 * i), util.rad2deg(np.pi * j)], [np.pi / 2 * i, 180.0 * j], 'degrees'); c.state('%d %d %d' % (N, i, j))
def track(P, name, ypr): P[name].data().orientationYPR = [float(x) for x in ypr]; P[name].swapBuffers()
YPR = [(0, 0, 0), (np.pi / 2, 0, 0), (0, np.pi / 4, 0), (0, 0, np.pi / 2), (np.pi / 2, np.pi / 4, 0), (-np.pi / 2, 0, np.pi / 3), (2.0, -0.5, 1.0)]
def place(kind, idx, chan, d, level):
    o = (om.PlaneWave if kind == 1 else om.PointSource)(idx)
    if kind == 1: az, el = polar(d); o.azimuth, o.elevation, o.referenceDistance = np.degrees(az), np.degrees(el), 2.0
    else: o.x, o.y, o.z = [float(x) for x in d * 1.5]
    o.resetNumberOfChannels(1); o.channels = [chan]; o.level = level; return o
# Scene to HOA coefficients, rotation of coefficients by the head orientation.
def hoacontrol(c, quick):
    ctx = visr.SignalFlowContext(4, 48000); top = Comp(ctx, 'top', None); N = c.choose(4, 'order'); nc = (N + 1) ** 2; kind = c.choose(4, 'component'); nobj = 2; MC = pml.MatrixParameterConfig(nc, nobj); run = lambda: flow.process(np.zeros((0, 4), f32)); blocks = 2 if quick else 3
    if kind == 0:
        enc = hoa.HoaObjectEncoder(ctx, 'e', top, nobj, N); flow, P = wire(top, enc, [('in', 'objectVector', pml.ObjectVector, DB, EC), ('out', 'coefficientOutput', pml.MatrixParameterFloat, SD, MC)]); E = np.zeros((nc, nobj)); sent = False
        for b in range(blocks):
            k = c.choose(5, 'objects')
            if k:
                E = np.zeros((nc, nobj)); v = [place((k + j) % 2, 5 - j, ch, DIRS[(2 * k + j + b) % len(DIRS)], [0.5, 1.0][j]) for j, ch in enumerate([(), (0,), (1,), (1, 0), (2, 0)][k])]; sent = True
                for j, ch in enumerate([(), (0,), (1,), (1, 0), (2, 0)][k]):
                    if ch < nobj: E[:, ch] = [0.5, 1.0][j] * sh(N, DIRS[(2 * k + j + b) % len(DIRS)])
                P['objectVector'].data().set(v); P['objectVector'].swapBuffers()
            run()
            if sent: near(c, np.array(P['coefficientOutput'].data()), E, 'HOA coefficients')
    elif kind == 1:
        o = c.choose(3, 'initial'); y0 = [None, np.array(YPR[4]), np.array(YPR[6])][o]
        rot = hoa.HoaCoefficientRotation(ctx, 'r', top, nobj, N, headOrientation=y0); flow, P = wire(top, rot, [('in', 'coefficientInput', pml.MatrixParameterFloat, SD, MC), ('out', 'coefficientOutput', pml.MatrixParameterFloat, SD, MC), ('in', 'tracking', pml.ListenerPosition, DB, EC)]); h = (0, 0, 0) if y0 is None else y0
        for b in range(blocks):
            k = c.choose(1 + len(YPR), 'orientation'); d = [DIRS[(b + 3 * j + k) % len(DIRS)] for j in range(nobj)]
            if k: h = YPR[k - 1]; track(P, 'tracking', h)
            if c.flag('replace'): P['coefficientInput'].data().set(np.array([sh(N, x) for x in d], f32).T) if hasattr(P['coefficientInput'].data(), 'set') else np.array(P['coefficientInput'].data(), copy=False).__setitem__(Ellipsis, np.array([sh(N, x) for x in d], f32).T); src = d
            elif b == 0: src = None
            run(); near(c, np.array(P['coefficientOutput'].data()), np.array([sh(N, head(*h).T @ x) for x in src]).T if src else np.zeros((nc, nobj)), 'rotated coefficients')
    else:
        dyn = kind == 2; o = c.choose(4, 'initial'); y0 = [None, YPR[4], list(YPR[6]), [0.7, -0.3]][o]; h = (0, 0, 0) if y0 is None else (tuple(y0) + (0,))[:3]; L = sum((2 * n + 1) ** 2 for n in range(N + 1))
        rot = hoa.HoaRotationMatrixCalculator(ctx, 'r', top, N, dynamicOrientation=dyn, initialOrientation=y0); flow, P = wire(top, rot, ([('in', 'orientation', pml.ListenerPosition, DB, EC)] if dyn else []) + [('out', 'coefficients', pml.VectorParameterFloat, DB, pml.VectorParameterConfig(L))])
        for b in range(blocks):
            k = c.choose(1 + len(YPR), 'orientation') if dyn else 0
            if k: h = YPR[k - 1]; track(P, 'orientation', h)
            run(); v = np.array(P['coefficients'].data()); at = 0; H = head(*h)
            for n in range(N + 1):
                M = v[at:at + (2 * n + 1) ** 2].reshape(2 * n + 1, -1); at += (2 * n + 1) ** 2
                for d in DIRS[:4]: near(c, M @ sh(N, d)[n * n:(n + 1) ** 2], sh(N, H.T @ d)[n * n:(n + 1) ** 2], 'rotation coefficients')
    c.state('%d %d' % (N, kind))
# HRIR grids: octahedron and cube directions, and a horizontal ring.
GRID = [np.array(v, float) / np.linalg.norm(v) for v in [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)] + list(itertools.product((-1, 1), repeat=3))]
TRI = [(a, i, j) for a in range(6) for i in range(6, 14) for j in range(i + 1, 14) if GRID[a] @ GRID[i] > 0 and GRID[a] @ GRID[j] > 0 and np.sum(GRID[i] * GRID[j] > 0) == 2]
RING = [np.array([np.cos(2 * np.pi * k / 5), np.sin(2 * np.pi * k / 5)]) for k in range(5)]
def nearest(grid, d): x = np.array(grid) @ d; return [k for k in range(len(grid)) if x[k] > x.max() - 1e-5]
def weights(grid, simplices, d):
    w, t = max(((np.linalg.solve(np.array([grid[k] for k in t]).T, d), t) for t in simplices), key=lambda x: x[0].min()); r = np.zeros(len(grid)); r[list(t)] = w / w.sum(); return r
def spherical(grid): return np.array([[*polar(d), 1.0] for d in grid])
def collect(P, n, flat, L): # filters sent in one block, complete or as interpolation parameters
    F = {}; name = 'interpolatorOutput' if 'interpolatorOutput' in P else 'filterOutput'; q = P[name]
    while not q.empty():
        m = q.front()
        F[m.index if name == 'filterOutput' else m.id] = np.array(m.value if hasattr(m, 'value') else m, float).reshape(-1) if name == 'filterOutput' else sum(w * flat[k] for k, w in zip(m.indices, m.weights)); q.pop()
    return F
def hrir(c, quick):
    ctx = visr.SignalFlowContext(4, 48000); top = Comp(ctx, 'top', None); nobj = [1, 2][c.choose(2, 'objects')]; itd, ild, interp, ic, ht = [c.flag(x) for x in ('itd', 'ild', 'interpolation', 'interpolating convolver', 'tracking')]; K = len(GRID)
    H = np.zeros((K, 2, K)); [H[k].__setitem__((slice(None), k), (1, 2)) for k in range(K)]; delays = np.array([[k + 1.0, 40.0 - k * k / 8] for k in range(K)])
    comp = visr_bst.DynamicHrirController(ctx, 'c', top, nobj, spherical(GRID) * [1, 1, 2], H, useHeadTracking=ht, dynamicITD=itd, dynamicILD=ild, hrirInterpolation=interp, interpolatingConvolver=ic, hrirDelays=delays if itd or c.flag('unused delays') else None)
    VC = pml.VectorParameterConfig(2 * nobj); flow, P = wire(top, comp, [('in', 'objectVector', pml.ObjectVector, DB, EC)] + ([('in', 'headTracking', pml.ListenerPosition, DB, EC)] if ht else []) + ([('out', 'interpolatorOutput', pml.InterpolationParameter, MQ, pml.InterpolationParameterConfig(3 if interp else 1))] if ic else [('out', 'filterOutput', pml.IndexedVectorFloat, MQ, EC)]) + ([('out', 'delayOutput', pml.VectorParameterFloat, DB, VC)] if itd else []) + ([('out', 'gainOutput', pml.VectorParameterFloat, DB, VC)] if ild else []))
    pos = [np.array([1.0, 0, 0])] * nobj; lev = [0.0] * nobj; R = np.eye(3)
    for b in range(2 if quick else 3):
        k = c.choose(5, 'scene') if b == 0 or not quick else c.choose(2, 'scene')
        if k:
            lev = [0.0] * nobj; pos = list(pos); v = []
            for j, ch in enumerate([(), (0,), (nobj - 1,), tuple(range(nobj))[::-1], (nobj, 0)][k]):
                d = DIRS[(3 * k + 2 * j + b) % len(DIRS)] if j or k != 2 else GRID[(5 * b + 3) % K]; v.append(place((k + j) % 2, 9 - j, ch, d, [0.5, 0.25][j % 2]))
                if ch < nobj: pos[ch], lev[ch] = d, [0.5, 0.25][j % 2]
            P['objectVector'].data().set(v); P['objectVector'].swapBuffers()
        if ht:
            h = [[0, 2, 5, 7], [0, 4, 6], [0, 3]][min(b, 2)][c.choose([4, 3, 2][min(b, 2)], 'orientation')]
            if h: track(P, 'headTracking', YPR[h - 1]); R = head(*YPR[h - 1]).T
        flow.process(np.zeros((0, 4), f32)); F = collect(P, nobj, H.reshape(2 * K, K), K); c.compared()
        if sorted(F) != list(range(2 * nobj)): c.fail('filters %s sent' % sorted(F))
        for ch in range(nobj):
            d = R @ pos[ch]; g = 1 if ild else lev[ch]; cand = [weights(GRID, TRI, d)] if interp else [np.eye(K)[i] for i in nearest(GRID, d)]
            ok = [w for w in cand if np.abs(F[ch] - w * g).max() < 1e-4]; c.compared(K)
            if not ok: c.fail('filter %s instead of %s' % (F[ch].tolist(), [(w * g).tolist() for w in cand]))
            near(c, F[ch + nobj], F[ch] * 2, 'filter of the right ear', 1e-4)
            if itd and len(ok) == 1: near(c, [np.array(P['delayOutput'].data())[ch + e * nobj] for e in (0, 1)], ok[0] @ delays, 'delays', 2e-3)
            if ild: near(c, [np.array(P['gainOutput'].data())[ch + e * nobj] for e in (0, 1)], [lev[ch]] * 2, 'gains')
    c.state('%d %d %d %d %d %d' % (nobj, itd, ild, interp, ic, ht))
def virtual(c, quick):
    ctx = visr.SignalFlowContext(4, 48000); top = Comp(ctx, 'top', None); nl = [1, 3][c.choose(2, 'loudspeakers')]; itd, interp, ic, ht, flat = [c.flag(x) for x in ('itd', 'interpolation', 'interpolating convolver', 'tracking', 'horizontal')]
    grid = RING if flat else GRID; K = len(grid); S = [(k, (k + 1) % K) for k in range(K)] if flat else TRI; H = np.zeros((K, 2, nl, K)); delays = np.zeros((K, 2, nl))
    for k, e, l in np.ndindex(K, 2, nl): H[k, e, l, k] = 1 + e + 2 * l; delays[k, e, l] = k * k + 3 * e + 7 * l
    o = c.choose(3 if ht else 1 + len(YPR), 'initial'); y = (0, 0, 0) if o == 0 else YPR[o + 3 if ht else o - 1]; start = None if o == 0 else [np.array(y, float), list(y)][o % 2]
    gridpos = np.array([[np.arctan2(d[1], d[0]), 1.0] for d in grid]) if flat else spherical(grid)
    comp = visr_bst.VirtualLoudspeakerController(ctx, 'c', top, hrirPositions=gridpos, hrirData=H, headOrientation=start, headTracking=ht, dynamicITD=itd, hrirInterpolation=interp, hrirDelays=delays if itd else None, interpolatingConvolver=ic)
    flow, P = wire(top, comp, ([('in', 'headTracking', pml.ListenerPosition, DB, EC)] if ht else []) + ([('out', 'interpolatorOutput', pml.InterpolationParameter, MQ, pml.InterpolationParameterConfig((2 if flat else 3) if interp else 1))] if ic else [('out', 'filterOutput', pml.IndexedVectorFloat, MQ, EC)]) + ([('out', 'delayOutput', pml.VectorParameterFloat, DB, pml.VectorParameterConfig(2 * nl))] if itd else []))
    F = {}
    for b in range(3 if quick else 4):
        if ht:
            h = c.choose(1 + len(YPR), 'orientation') if b == 0 or not quick and b < 3 else [0, 5][c.choose(2, 'orientation')] if b == 1 else 0
            if h: track(P, 'headTracking', YPR[h - 1]); y = YPR[h - 1]
        flow.process(np.zeros((0, 4), f32)); F.update(collect(P, nl, H.reshape(-1, K), K)); c.compared()
        if sorted(F) != list(range(2 * nl)): c.fail('filters %s sent' % sorted(F))
        d = head(*y)[:len(grid[0]), 0]
        if np.linalg.norm(d) < 1e-6: continue
        cand = [weights(grid, S, d)] if interp else [np.eye(K)[i] for i in nearest(grid, d)]; ok = [w for w in cand if np.abs(F[0] - w).max() < 1e-4]; c.compared(K)
        if not ok: c.fail('filter %s instead of %s' % (F[0].tolist(), [w.tolist() for w in cand]))
        for l in range(nl):
            for e in (0, 1):
                near(c, F[l + e * nl], F[0] * (1 + e + 2 * l), 'filters of ear %d' % e, 1e-3)
                if itd: near(c, np.array(P['delayOutput'].data())[l + e * nl], ok[0] @ delays[:, e, l], 'delay', 1e-2)
    c.state('%d %d %d %d %d %d' % (nl, itd, interp, ic, ht, flat))
# Third-order Lagrange interpolation of a delay (in samples), including the delay of the method.
def lagrange(d):
    t = d + 1.5; b = int(np.floor(t + 1e-5)) - 1; h = np.zeros(b + 4)
    for i in range(4): h[b + i] = np.prod([(t - b - j) / (i - j) for j in range(4) if j != i])
    return h
# Complete renderers: responses to impulses in stationary scenes.
def renderers(c, quick):
    kind = c.choose(4, 'renderer'); n = 32 if kind in (0, 3) else 16; ctx = visr.SignalFlowContext(n, 48000); ht = c.flag('tracking'); y = (0, 0, 0); R = np.eye(3); grid = GRID; K = len(grid); late = False
    if kind == 0:
        nin = [1, 2][c.choose(2, 'loudspeakers')]; flat, interp, late, xf, ic = [c.flag(x) for x in ('horizontal', 'interpolation', 'late reverberation', 'crossfading', 'interpolating')]
        grid = [np.array([*d, 0]) for d in RING] if flat else GRID; K = len(grid); H = np.zeros((K, 2, nin, K), f32)
        for k, e, l in np.ndindex(K, 2, nin): H[k, e, l, k] = 1 + e + 2 * l
        LF = np.arange(2 * nin * 4).reshape(2, nin, 4).astype(f32); LD = np.array([[(3 * e + l) / 48000 for l in range(nin)] for e in (0, 1)], f32); o = c.choose(3, 'initial'); y0 = [None, YPR[4], [0.7, -0.3]][o]; y = (0, 0, 0) if y0 is None else (tuple(y0) + (0,))[:3]; itd = c.flag('itd') if not late else False; VD = np.array([[[(k % 3 + 2 * e + l) for l in range(nin)] for e in (0, 1)] for k in range(K)], f32)
        comp = visr_bst.VirtualLoudspeakerRenderer(ctx, 'c', None, hrirPositions=spherical(grid), hrirData=H, headTracking=ht, headOrientation=y0, dynamicITD=itd, hrirDelays=VD / 48000 if itd else None, hrirInterpolation=interp, filterCrossfading=xf, interpolatingConvolver=ic, staticLateFilters=LF if late else None, staticLateDelays=LD if late else None)
    elif kind == 3:
        y0 = [None, YPR[4], [0.7, -0.3]][c.choose(3, 'initial')]; y = (0, 0, 0) if y0 is None else (tuple(y0) + (0,))[:3]; nin = 2; interp, ic, ild, xf, itd = [c.flag(x) for x in ('interpolation', 'interpolating', 'ild', 'crossfading', 'itd')]; Dl = np.array([[(k % 3 + 2 * e) for e in (0, 1)] for k in range(K)], f32); H = np.zeros((K, 2, K), f32); [H[k].__setitem__((slice(None), k), (1, 2)) for k in range(K)]
        comp = visr_bst.DynamicHrirRenderer(ctx, 'c', None, nin, hrirPositions=spherical(grid), hrirData=H, headTracking=ht, dynamicITD=itd, hrirDelays=Dl / 48000 if itd else None, dynamicILD=ild, hrirInterpolation=interp, filterCrossfading=xf, interpolatingConvolver=ic, headOrientation=y0)
    else:
        y0 = [None, YPR[4], [0.7, -0.3]][c.choose(3, 'initial')]; y = (0, 0, 0) if y0 is None else (tuple(y0) + (0,))[:3]; N = c.choose(3, 'order'); nc = (N + 1) ** 2; extra = c.flag('more filters') * (2 * N + 3); Fl = np.array([[[(i + 1) * (1 + e) * (t == i % 4) - e * (t == 5) for t in range(6)] for e in (0, 1)] for i in range(nc + extra)], f32); G = lambda Y: np.array([sum(Y[i] * Fl[i, e] for i in range(nc)) for e in (0, 1)])
        if kind == 1:
            nin = nc; comp = visr_bst.HoaBinauralRenderer(ctx, 'c', None, hoaOrder=N if extra else [None, N][c.choose(2, 'explicit order')], decodingFilters=Fl, headOrientation=y0, headTracking=ht)
        else: nin = 2; comp = visr_bst.HoaObjectToBinauralRenderer(ctx, 'c', None, nin, maxHoaOrder=N if extra else None, decodingFilters=Fl, headTracking=ht, headOrientation=y0)
    flow = rrl.AudioSignalFlow(comp); d = [np.array([1.0, 0, 0])] * nin; lev = [0.0] * nin
    for b in range(2):
        if ht:
            h = c.choose(1 + len(YPR), 'orientation') if not quick else [0, 5, 7][c.choose(3 - b, 'orientation')]
            if h: q = flow.parameterReceivePort('tracking'); q.data().orientationYPR = list(map(float, YPR[h - 1])); q.swapBuffers(); y = YPR[h - 1]
        if kind in (2, 3):
            k = c.choose(3, 'scene') if b == 0 or not quick else 2 * c.flag('scene')
            if k: d = [DIRS[(3 * k + b) % 8], DIRS[(3 * k + 2 + b) % 8]]; lev = [0.5, 1.0][::1 if k == 1 else -1]; q = flow.parameterReceivePort('objectVector'); q.data().set([place((k + j) % 2, j, j, d[j], lev[j]) for j in range(2)]); q.swapBuffers()
        R = head(*y).T
        for _ in range(2): flow.process(np.zeros((nin, n), f32))
        for i in range(nin):
            X = np.zeros((nin, n), f32)
            if kind == 1: D_ = DIRS[i % 8]; X[:, 0] = sh(N, D_); E = G(sh(N, R @ D_))
            else: X[i, 0] = 1
            Y = np.array(flow.process(X))
            if kind == 2: E = G(sh(N, R @ d[i]) * lev[i])
            if kind in (1, 2): near(c, Y[:, :6], E, 'binaural response', 1e-3); continue
            v = R.T[:, 0] if kind == 0 else R @ d[i]
            if kind == 0 and flat: v = v[:2]; g_ = RING; S = [(k, (k + 1) % 5) for k in range(5)]
            else: g_, S = GRID, TRI
            if np.linalg.norm(v) < 1e-6: continue
            cand = [weights(g_, S, v)] if interp else [np.eye(K)[j] for j in nearest(g_, v)]; scale = [(1 + e + 2 * i) if kind == 0 else (1 + e) * lev[i] for e in (0, 1)]
            Es = [np.array([np.concatenate([w, np.zeros(n - K)]) * scale[e] for e in (0, 1)]) for w in cand]
            if kind == 3 and (ild or itd): Es = [np.array([np.convolve(E[e], lagrange(float(w @ Dl[:, e]) if itd else 0.0))[:n] for e in (0, 1)]) for E, w in zip(Es, cand)]
            if kind == 0 and itd: Es = [np.array([np.convolve(E[e], lagrange(float(w @ VD[:, e, i])))[:n] for e in (0, 1)]) for E, w in zip(Es, cand)]
            if late:
                for E in Es:
                    for e in (0, 1): at = 3 * e + i; E[e, at:at + 4] += LF[e, i]
            c.compared(2 * n)
            if not any(np.abs(Y - E).max() < 1e-3 for E in Es): c.fail('binaural response %s instead of %s' % (Y.tolist(), [E.tolist() for E in Es]))
            if any(np.abs(Y - E).max() < 1e-3 for E in Es): flow.process(np.zeros((nin, n), f32))
    c.state('%d %d %d' % (kind, ht, K))
def scenarios(quick):
    S = {}
    for f in (rotations, harmonics, hoacontrol, hrir, virtual, renderers): S[f.__name__] = (lambda c, f=f: f(c, quick), 3)
    return S
