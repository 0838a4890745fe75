# Scenarios of C32, run by harness/C32.cpp (which provides the modules and the explorer).
import numpy as np, itertools, warnings
warnings.simplefilter('ignore', np.ComplexWarning if hasattr(np, 'ComplexWarning') else np.exceptions.ComplexWarning)
import visr, efl, rrl, rcl, pml, rbbl, objectmodel, panning, panningdsp, reverbobject, signalflows

def raises(f, *a, **k):
    try: f(*a, **k)
    except Exception: return True
    return False

# ---- array layouts: functions that return an array equal to 'a' with a particular memory layout
def neg(a, axis): return np.flip(np.ascontiguousarray(np.flip(a, axis)), axis)
def stepped(a, axis, step):
    sh = list(a.shape); sh[axis] *= step; b = np.full(sh, 77, a.dtype); sl = [slice(None)] * a.ndim; sl[axis] = slice(None, None, step); b[tuple(sl)] = a; return b[tuple(sl)]
def offset(a):
    b = np.full([n + 3 for n in a.shape], 77, a.dtype); sl = tuple(slice(2, 2 + n) for n in a.shape); b[sl] = a; return b[sl]
def packed(a):
    b = np.zeros(a.shape, dtype=[('x', 'i2'), ('v', a.dtype), ('y', 'i1')]); b['v'] = a; return b['v']
def readonly(a):
    b = np.ascontiguousarray(a).copy(); b.flags.writeable = False; return b
LAYOUTS = [('C', lambda a: np.ascontiguousarray(a)), ('F', lambda a: np.asfortranarray(a)), ('reversed last', lambda a: neg(a, -1)), ('reversed first', lambda a: neg(a, 0)),
           ('step 2', lambda a: stepped(a, -1, 2)), ('step 3 first', lambda a: stepped(a, 0, 3)), ('window', offset), ('field', packed), ('read-only', readonly), ('reversed step', lambda a: np.flip(stepped(np.flip(a, -1), -1, 2), -1))]
def layout(c, a):
    name, f = LAYOUTS[c.choose(len(LAYOUTS), 'layout')]; b = f(a); assert b.dtype == a.dtype and (b == a).all(); c.note('layout ' + name); return b
def signal(block, ch, n): return ((np.arange(ch)[:, None] * 7 + np.arange(n)[None, :] * 3 + block * 5 + 1) % 23 - 11).astype(np.float32)
def near(c, a, b, what, tol=1e-6):
    a = np.asarray(a); b = np.asarray(b); c.compared(max(1, a.size))
    if a.shape != b.shape: c.fail('%s: shape %s instead of %s' % (what, a.shape, b.shape))
    if a.size and not (np.abs(a - b) <= tol * (1 + np.abs(b))).all(): c.fail('%s: %s instead of %s' % (what, a.tolist(), b.tolist()))

WRONG = ['double', 'int', 'big endian', '1D', '3D', 'more channels', 'fewer channels', 'long', 'short', 'transposed', 'complex']
def wrong(kind, ch, n):
    f = np.float32
    return {'double': lambda: np.zeros((ch, n)), 'int': lambda: np.zeros((ch, n), np.int32), 'big endian': lambda: np.zeros((ch, n), '>f4'), '1D': lambda: np.zeros(ch * n, f), '3D': lambda: np.zeros((1, ch, n), f), 'more channels': lambda: np.zeros((ch + 1, n), f),
            'fewer channels': lambda: np.zeros((ch - 1, n), f), 'long': lambda: np.zeros((ch, n + 1), f), 'short': lambda: np.zeros((ch, n - 1), f), 'transposed': lambda: np.zeros((n, ch), f), 'complex': lambda: np.zeros((ch, n), np.complex64)}[kind]()
# Signal flows driven with arrays of every layout; invalid arrays in between are rejected without effect.
def flows(c, quick, flexible):
    n = [1, 3, 4, 8, 13][c.choose(5, 'period')]; ch = [1, 2, 3, 0][c.choose(4, 'inputs')]; out = 2; kind = c.choose(2, 'component') if ch == 2 else 0
    ctx = visr.SignalFlowContext(n, 48000); g = ((np.arange(out)[:, None] * 3 + np.arange(ch)[None, :] * 5 + 1) / 4).astype(np.float32)
    if kind == 0: comp = rcl.GainMatrix(ctx, 'gain', None, ch, out, interpolationSteps=0, initialGains=g, controlInput=False) if ch else None
    else: comp = rcl.DelayVector(ctx, 'delay', None, 2, n, 0.01, 'nearestSample', initialDelay=np.array([1 / 48000, 5 / 48000], np.float32), initialGain=np.array([1, 1], np.float32), controlInputs=rcl.DelayVector.ControlPortConfig.No) # the output depends on the history
    if ch == 0: comp = Source(ctx, 'source', None, out)
    flow = rrl.AudioSignalFlow(comp); dut = rrl.FlexibleBufferWrapper(flow) if flexible else flow; hist = np.zeros((max(ch, 1), 16), np.float32); got = []; given = []; total = 0
    if flow.numberOfCaptureChannels != ch or flow.numberOfPlaybackChannels != out: c.fail('%d inputs, %d outputs' % (flow.numberOfCaptureChannels, flow.numberOfPlaybackChannels))
    for b in range(2 if quick else 3):
        m = n if not flexible else [n, 1, 2 * n + 1, 0][c.choose(4, 'frames')]
        bad = c.choose(len(WRONG) + 1, 'wrong') if ch and b == 1 else 0
        if bad:
            w = wrong(WRONG[bad - 1], ch, m if m or WRONG[bad - 1] != 'short' else 1) if not (WRONG[bad - 1] == 'short' and m == 0) else np.zeros(3, np.float32)
            if not (w.dtype == np.float32 and w.dtype.isnative and w.ndim == 2 and w.shape[0] == ch and (flexible or w.shape[1] == n)):
                c.compared()
                if not raises(dut.process, w): c.fail('an array of type %s and shape %s was accepted' % (w.dtype, w.shape))
        x = signal(b, ch, m); a = layout(c, x) if ch and b < (1 if quick else 2) else x; keep = a.copy()
        if ch == 0 and c.flag('no argument'): y = dut.process(m) if flexible else dut.process()
        else: y = dut.process(a)
        if not (a == keep).all(): c.fail('the input array was modified')
        if y.shape != (out, m) or y.dtype != np.float32: c.fail('output of shape %s and type %s' % (y.shape, y.dtype))
        got.append(y); given.append(x); total += m
    X = np.concatenate(given, axis=1) if ch else np.zeros((0, total), np.float32); Y = np.concatenate(got, axis=1)
    if ch == 0: E = np.stack([np.arange(total) % n + 100 * (np.arange(total) // n) + 1000 * o for o in range(out)])
    elif kind == 0: E = g @ X
    else: E = np.stack([np.concatenate([np.zeros(d), X[i]])[:total] for i, d in enumerate((1, 5))])
    if flexible: E = np.concatenate([np.zeros((out, n)), E], axis=1)[:, :total] # one block of latency
    near(c, Y, E, 'output')
    c.state('%d %d %d %d' % (n, ch, kind, total))

class Source(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, width):
        super().__init__(ctx, name, parent); self.out = visr.AudioOutputFloat('out', self, width); self.b = 0
    def process(self):
        n = self.period(); w = self.out.width
        self.out.set((np.arange(n)[None, :] + 100 * self.b + 1000 * np.arange(w)[:, None]).astype(np.float32)); self.b += 1
# Components implemented in Python: contents and extent of audio ports, exceptions in process().
class Atom(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, width, hook=None, outWidth=None):
        super().__init__(ctx, name, parent); self.i = visr.AudioInputFloat('in', self, width); self.o = visr.AudioOutputFloat('out', self, width if outWidth is None else outWidth); self.hook = hook
    def process(self): self.hook(self)
class Comp(visr.CompositeComponent): pass
class Stop(Exception): pass
def ports(c, quick):
    n = [1, 2, 3, 4, 5, 7, 8, 16][c.choose(8, 'period')]; w = [1, 2, 3, 0][c.choose(4, 'width')]; rd = c.choose(6, 'read'); wr = c.choose(4, 'write'); ctx = visr.SignalFlowContext(n, 48000)
    bad = c.choose(len(WRONG) + 2, 'misuse'); blk = [0]; seen = []
    def access(port, kind):
        if kind == 0: return port.data()
        if kind == 1: return np.array([port[k] for k in range(w)], np.float32 if w == 0 else None).reshape(w, n)
        if kind == 2: return np.array([port.channel(k) for k in range(w)], np.float32 if w == 0 else None).reshape(w, n)
        if kind == 3: return np.array(port)
        if kind == 4: return np.array(port, copy=False)
        return np.array(memoryview(port).tolist(), np.float32).reshape(w, n)
    def hook(self):
        b = blk[0]; blk[0] += 1; a = access(self.i, rd)
        if a.shape != (w, n) or a.dtype != np.float32: c.fail('input array of shape %s and type %s' % (a.shape, a.dtype))
        seen.append(a.copy()); y = (a * 2 + 1).astype(np.float32)
        if b == 1 and bad == len(WRONG) + 1: raise Stop()
        if b == 1 and bad and w:
            v = wrong(WRONG[bad - 1], w, n)
            if v.ndim != 2 or v.shape != (w, n):
                c.compared()
                if not raises(self.o.set, v): c.fail('set() accepted an array of shape %s instead of %s' % (v.shape, (w, n)))
        for k in (w, w + 1, -1, 1000000):
            c.compared()
            if not raises(lambda: self.i[k]) or not raises(lambda: self.i.channel(k)) or not raises(lambda: self.o[k]) or not raises(lambda: self.o.channel(k)): c.fail('channel %d of %d is accessible' % (k, w))
        if wr == 0: self.o.set(layout(c, y) if w and n and b == 0 and rd == 0 else y)
        elif wr == 1: np.array(self.o, copy=False)[...] = y
        elif wr == 2:
            m = np.asarray(self.o)
            for k in range(w): m[k] = y[k]
        else: self.o.set(y.astype(np.float64)) # converted
        near(c, self.o.data(), y, 'contents of the output port after writing')
        for k in range(w): near(c, self.o[k], y[k], 'channel of the output port after writing')
    t = Atom(ctx, 'atom', None, w, hook); flow = rrl.AudioSignalFlow(t); X = []
    if t.i.width != w or t.i.channelStrideSamples < n or t.i.name != 'in' or t.i.qualifiedName != 'atom:in' or t.i.fullName != 'atom:in' or t.time().sampleCount: c.fail('attributes of the port or the component')
    for b in range(3):
        x = signal(b, w, n); X.append(x)
        if b == 1 and bad == len(WRONG) + 1:
            c.compared()
            if not raises(flow.process, x): c.fail('the exception of the component got lost')
        else: near(c, flow.process(x) if w else flow.process(x), x * 2 + 1, 'block %d' % b)
    near(c, np.array(seen), np.array(X), 'input blocks')
    c.state('%d %d %d %d' % (n, w, rd, wr))

# Composite components built in Python, all forms to specify channels.
def composites(c, quick):
    n = 4; ctx = visr.SignalFlowContext(n, 48000); top = Comp(ctx, 'top', None); w = 1 + c.choose(3, 'width')
    top.i = visr.AudioInputFloat('in', top, w); top.o = visr.AudioOutputFloat('out', top, w)
    def hook(f): return lambda self: self.o.set(f(np.array(self.i)).astype(np.float32))
    inner = Comp(ctx, 'inner', top) if c.flag('nested') else None
    if inner is not None:
        inner.i = visr.AudioInputFloat('in', inner, w); inner.o = visr.AudioOutputFloat('out', inner, w); a = Atom(ctx, 'a', inner, w, hook(lambda v: v + 1))
        inner.audioConnection(inner.i, a.i); inner.audioConnection(sendPort=a.o, receivePort=inner.o); ai, ao = inner.i, inner.o
    else: a = Atom(ctx, 'a', top, w, hook(lambda v: v + 1)); ai, ao = a.i, a.o
    b = Atom(ctx, 'b', top, w, hook(lambda v: v * 2))
    if a.fullName != ('inner:a' if inner is not None else 'a') or a.name != 'a' or visr.Component.nameSeparator != ':': c.fail('name ' + a.fullName)
    if a.i.fullName != a.fullName + ':in' or a.i.qualifiedName != 'a:in': c.fail('port name ' + a.i.fullName)
    p = list(itertools.permutations(range(w)))[c.choose([0, 1, 2, 6][w], 'order')]; q = list(range(w)); bad = c.choose(6, 'misuse'); form = c.choose(7, 'form'); names = ('inner' if inner is not None else 'a')
    if bad == 1: c.compared(); raises(top.audioConnection, ai, [w], b.i, [0]) or c.fail('channel beyond the width accepted')
    if bad == 2 and w > 1: c.compared(); raises(top.audioConnection, ao, [0, 1], b.i, [0]) or c.fail('different numbers of channels accepted')
    if bad == 3: c.compared(); (raises(top.audioConnection, names, 'nothing', visr.ChannelList([0]), 'b', 'in', visr.ChannelList([0])) and raises(top.audioConnection, 'nobody', 'out', visr.ChannelList([0]), 'b', 'in', visr.ChannelList([0]))) or c.fail('unknown names accepted')
    if bad == 4: c.compared(); raises(top.audioConnection, ao, [-1], b.i, [0]) or c.fail('negative channel accepted')
    top.audioConnection(top.i, ai)
    if form == 0: top.audioConnection(ao, list(p), b.i, q)
    elif form == 1: top.audioConnection(ao, visr.ChannelList(list(p)), b.i, visr.ChannelList(q))
    elif form == 2: top.audioConnection(names, 'out', visr.ChannelList(list(p)), 'b', 'in', visr.ChannelList(visr.ChannelRange(0, w)))
    elif form == 3: top.audioConnection(sendPort=ao, sendIndices=p, receivePort=b.i) # default receive channels
    elif form == 4: top.audioConnection(ao, q, b.i, [p.index(k) for k in q]) # inverse on the receive side
    elif form == 5:
        for k in q: top.audioConnection(ao, [p[k]], b.i, range(k, k + 1))
    else: p = tuple(reversed(q)); top.audioConnection(ao, visr.ChannelRange(w - 1, -1, -1) if False else range(w - 1, -1, -1), b.i, range(w))
    miss = bad == 5
    if not miss: top.audioConnection(b.o, visr.ChannelList(visr.ChannelRange(0, w)), top.o, visr.ChannelList(visr.ChannelRange(0, w)))
    if [k.name for k in top.components()] .sort() != [names, 'b'].sort() or sorted(k.name for k in top.components()) != sorted([names, 'b']): c.fail('components()')
    con = [(k.sender.fullName, k.receiver.fullName, list(k.sendIndices), list(k.receiveIndices)) for k in top.audioConnections()]
    want = 2 + (0 if miss else 1) if form != 5 else w + 1 + (0 if miss else 1)
    edges = sorted((s, d, x, y) for s, d, xs, ys in con for x, y in zip(xs, ys)); sn = ao.fullName
    exp = sorted([('top:in', ai.fullName, k, k) for k in q] + [(sn, b.i.fullName, p[k], k) for k in q] + ([] if miss else [(b.o.fullName, 'top:out', k, k) for k in q])); c.compared(len(exp))
    if edges != exp: c.fail('audioConnections(): %s instead of %s' % (edges, exp))
    if sorted(k.name for k in b.audioPorts) != ['in', 'out'] or list(b.parameterPorts): c.fail('ports of a component')
    if miss:
        c.compared()
        if not raises(rrl.AudioSignalFlow, top) : c.fail('an unconnected output was accepted')
        return
    flow = rrl.AudioSignalFlow(top)
    for k in range(2): x = signal(k, w, n); near(c, flow.process(x), (x[list(p)] + 1) * 2, 'output')
    c.state('%d %s %d' % (w, p, form))

# Parameters exchanged between Python components and with the outside.
class Sender(visr.AtomicComponent):
    def __init__(self, ctx, parent, script):
        super().__init__(ctx, 'sender', parent); self.q = visr.ParameterOutput('queue', self, pml.StringParameter.staticType, pml.MessageQueueProtocol.staticType, pml.EmptyParameterConfig())
        self.d = visr.ParameterOutput('buffer', self, pml.MatrixParameterFloat.staticType, pml.DoubleBufferingProtocol.staticType, pml.MatrixParameterConfig(2, 3)); self.script = script
    def process(self): self.script(self)
class Receiver(visr.AtomicComponent):
    def __init__(self, ctx, parent, script):
        super().__init__(ctx, 'receiver', parent); self.q = visr.ParameterInput('queue', self, pml.StringParameter.staticType, pml.MessageQueueProtocol.staticType, pml.EmptyParameterConfig())
        self.d = visr.ParameterInput('buffer', self, pml.MatrixParameterFloat.staticType, pml.DoubleBufferingProtocol.staticType, pml.MatrixParameterConfig(2, 3)); self.script = script
    def process(self): self.script(self)
def parameters(c, quick):
    ctx = visr.SignalFlowContext(4, 48000); top = Comp(ctx, 'top', None); external = c.choose(2, 'external'); sent = [0]; fifo = []; last = [np.zeros((2, 3))]; changed = [False]
    def emit(q, d, k, how):
        for j in range(k): sent[0] += 1; t = 'message %d' % sent[0]; fifo.append(t); q.enqueue(pml.StringParameter(t))
        if how:
            v = (np.arange(6).reshape(2, 3) + sent[0] * 10 + how).astype(np.float32)
            if how == 1: np.array(d.data(), copy=False)[...] = v; d.swapBuffers()
            elif how == 2: d.set(pml.MatrixParameterFloat(v), True)
            else: d.data()[1, 2] = 5.0; np.array(d.data(), copy=False)[...] = v; d.swapBuffers(True); near(c, np.array(d.data()), v, 'copied buffer')
            last[0] = v; changed[0] = True
    def consume(q, d, k, reset):
        c.compared(2)
        if q.size() != len(fifo) or q.empty() != (not fifo): c.fail('%d messages in the queue instead of %d' % (q.size(), len(fifo)))
        for j in range(k):
            if fifo:
                t = fifo.pop(0)
                if q.front().str != t: c.fail('message %r instead of %r' % (q.front().str, t))
                q.pop()
            elif not raises(q.front) or not raises(q.pop): c.fail('elements of an empty queue')
        near(c, np.array(d.data()), last[0], 'contents of the double buffer'); near(c, [d.data()[1, 0], d.data()[0, 2]], [last[0][1, 0], last[0][0, 2]], 'elements')
        if d.changed() != changed[0]: c.fail('changed() is %s' % d.changed())
        if reset: d.resetChanged(); changed[0] = False
    ops = [(0, 0), (1, 1), (2, 2), (1, 3), (0, 2)]; act = [None, None]
    s = Sender(ctx, top, lambda self: emit(self.q.protocol, self.d.protocolOutput(), *act[0])) if external != 1 else None
    r = Receiver(ctx, top, lambda self: consume(self.q.protocol, self.d.protocolInput(), *act[1]))
    if s: top.parameterConnection(s.q, r.q); top.parameterConnection('sender', 'buffer', 'receiver', 'buffer')
    else:
        top.q = visr.ParameterInput('queue', top, pml.StringParameter.staticType, pml.MessageQueueProtocol.staticType, pml.EmptyParameterConfig()); top.d = visr.ParameterInput('buffer', top, pml.MatrixParameterFloat.staticType, pml.DoubleBufferingProtocol.staticType, pml.MatrixParameterConfig(2, 3))
        top.parameterConnection(top.q, r.q); top.parameterConnection(top.d, r.d)
    if len(list(top.parameterConnections())) != 2 or sorted(k.name for k in r.parameterPorts) != ['buffer', 'queue']: c.fail('introspection')
    flow = rrl.AudioSignalFlow(top)
    if not s:
        eq = flow.parameterReceivePort('queue'); ed = flow.parameterReceivePort('buffer')
        if not raises(flow.parameterReceivePort, 'nothing') or not raises(flow.parameterSendPort, 'queue'): c.fail('unknown ports accepted')
    for b in range(3 if quick else 4):
        act[0] = ops[c.choose(5, 'send')]; act[1] = [(0, 0), (1, 1), (4, 1)][c.choose(3, 'receive')]
        if not s: emit(eq, ed, *act[0])
        flow.process(np.zeros((0, 4), np.float32))
        c.state('%d %d %s' % (external, len(fifo), changed[0]))
# Numeric containers created from, filled with and viewed as arrays.
TYPES = [('Float', np.float32), ('Double', np.float64), ('ComplexFloat', np.complex64), ('ComplexDouble', np.complex128)]
def values(shape, t, k=0):
    n = int(np.prod(shape)); a = ((np.arange(n) * 7 + k) % 11 - 5).astype(t) / 2
    if np.issubdtype(t, np.complexfloating): a = a + 1j * ((np.arange(n) * 5 + k) % 7 - 3)
    return a.astype(t).reshape(shape)
def containers(c, quick):
    name, t = TYPES[c.choose(4, 'type')]; kind = c.choose(5, 'class'); al = [None, 0, 1, 4, 16][c.choose(5, 'alignment')]; dim = [1, 2, 1, 2, 3][kind]
    if kind == 4 and name[:7] != 'Complex': cls = getattr(pml, 'TimeFrequencyParameter' + name); t = {np.float32: np.complex64, np.float64: np.complex128}[t]
    elif kind == 4: return
    else: cls = getattr([efl, efl, pml, pml][kind], ['BasicVector', 'BasicMatrix', 'VectorParameter', 'MatrixParameter'][kind] + name)
    shape = [[(1,), (3,), (17,), (0,)], [(2, 3), (3, 1), (1, 17), (0, 2)], [(2, 1, 3), (1, 2, 5), (2, 2, 17), (3, 2, 1)]][dim - 1][c.choose(4, 'shape')]; a = values(shape, t); kw = {} if al is None else {'alignment': al}
    if kind == 4 and al == 0: kw = {} # zero rows the stride
    v = cls(layout(c, a) if a.size else a, **kw); c.compared(8)
    if isinstance(v, visr.ParameterBase) != (kind >= 2): c.fail('base class')
    def same(v, a, what):
        near(c, np.array(v), a, what); near(c, np.array(v, copy=False), a, what + ' (view)')
        for k in np.ndindex(a.shape):
            if v[k[0] if dim == 1 else k] != a[k]: c.fail('%s: element %s is %s instead of %s' % (what, k, v[k[0] if dim == 1 else k], a[k]))
        if dim == 1 and (v.size != a.size or list(v) != list(a)): c.fail(what + ': iteration %s' % list(v))
        if dim == 2 and (v.numberOfRows, v.numberOfColumns) != a.shape: c.fail(what + ': dimension %d x %d' % (v.numberOfRows, v.numberOfColumns))
        if dim == 3 and (v.numberOfFrames, v.numberOfChannels, v.numberOfDftBins) != a.shape: c.fail(what + ': dimension')
    same(v, a, 'new object')
    if al and v.alignment != al: c.fail('alignment %d instead of %d' % (v.alignment, al))
    if al and a.size and np.array(v, copy=False).ctypes.data % (al * a.itemsize if False else 1): c.fail('address')
    for k in range(dim):
        for j in (a.shape[k], a.shape[k] + 1, -1, 2**40):
            idx = tuple(j if m == k else 0 for m in range(dim)); idx = idx[0] if dim == 1 else idx; c.compared(2)
            def store(): v[idx] = 1
            if not raises(lambda: v[idx]) or not raises(store): c.fail('element %s of an array of shape %s is accessible' % (idx, a.shape))
    same(v, a, 'after invalid accesses')
    for w in (np.zeros((2,) * (dim + 1), t), np.zeros((), t), np.zeros((2,) * (dim - 1), t) if dim > 1 else np.zeros((2, 2), t)):
        c.compared()
        if dim == 1 and w.ndim == 0 and False: continue
        if not raises(cls, w): c.fail('created from an array of shape %s' % (w.shape,))
    for wt in (np.int32, np.float64, '>f4', np.complex128, np.uint8, np.bool_): # converted or rejected
        w = values(shape, np.float64).astype(wt) if wt is not np.complex128 else values(shape, np.complex128)
        c.compared()
        if dim == 1 and w.size == 1: continue # also converts to a number of elements
        try: u = cls(w)
        except Exception: continue
        if np.iscomplexobj(w) and not np.iscomplexobj(a): near(c, np.array(u), w.real.astype(t), 'converted array')
        else: near(c, np.array(u), w.astype(t), 'converted array')
    if a.size:
        idx = tuple(n - 1 for n in a.shape); v[idx[0] if dim == 1 else idx] = 3; a = a.copy(); a[idx] = 3; same(v, a, 'after setting an element')
        m = np.array(v, copy=False); m[(0,) * dim] = 9; a[(0,) * dim] = 9; same(v, a, 'after writing to the view')
    if dim == 1:
        b = values(shape, t, 4); v.set(layout(c, b) if b.size and kind == 0 and al is None else b); same(v, b, 'after set()'); c.compared(2)
        for w in (np.zeros(len(b) + 1, t), np.zeros((1, len(b)), t), np.zeros((), t)):
            if not raises(v.set, w): c.fail('set() accepts an array of shape %s' % (w.shape,))
        same(v, b, 'after rejected set()')
        if kind == 0:
            try: u = cls([1.0, 2.0, 3.0])
            except Exception: u = None
            if u is not None: same(u, np.array([1, 2, 3], t), 'from a list')
            same(cls(b.copy(), alignment=4), b, 'iterator of a temporary'); c.compared()
            if list(iter(cls(b.copy(), alignment=4))) != list(b): c.fail('iteration over a temporary object')
    if dim < 3: v.zeroFill(); near(c, np.array(v), np.zeros(shape, t), 'after zeroFill()')
    keep = np.array(cls(values(shape, t)), copy=False); near(c, keep, values(shape, t), 'view of a deleted object')
    c.state('%s %d %s' % (name, kind, al))
def indexed(c, quick):
    n = c.choose(4, 'size'); name, t = TYPES[c.choose(2, 'type')]; cls = getattr(pml, 'IndexedVector' + name); a = values((n,), t); k = [0, 3, 2**31][c.choose(3, 'index')]
    v = cls(k, layout(c, a) if n else a); c.compared()
    if v.index != k: c.fail('index')
    near(c, np.array(v.value), a, 'values'); b = values((n + 1,), t, 3); v.value = b.tolist() if c.flag('list') else b; near(c, np.array(v.value), b, 'new values'); v.index = 5
    if v.index != 5 or v.clone().index != 5: c.fail('index after setting')
    near(c, np.array(v.clone().value), b, 'copy')
    for w in (np.zeros((2, 2), t), np.zeros((), t)):
        if not raises(cls, 0, w): c.fail('an array of shape %s was accepted' % (w.shape,))
    for cls, good, bad in ((pml.Float, [0.5, -2], ['x', None]), (pml.Double, [0.1], ['x']), (pml.Integer, [-7, 2**31 - 1], [1.5, 2**31, 'x']), (pml.UnsignedInteger, [7], [-1]), (pml.Boolean, [True, False], ['x']), (pml.ComplexFloat, [1 + 2j], ['x'])):
        for g in good:
            p = cls(g); c.compared(3)
            if p.value != g or p.clone().value != g or p.staticType != p.type(): c.fail('%s is %s' % (g, p.value))
            q = cls(); q.assign(p)
            if q.value != g: c.fail('assigned value')
            q.set(good[0])
            for x in bad:
                if not raises(cls, x) or not raises(q.set, x): c.fail('%s accepted as %s' % (x, cls.__name__))
            if q.value != good[0]: c.fail('value changed')
        if not raises(p.assign, pml.StringParameter('x')): c.fail('assignment of another type')
    c.state('%d %s' % (n, name))

# Vector functions on arrays and vectors: exactly the requested elements are computed, everything else is rejected.
def vfunctions(quick):
    r = lambda x: x
    F = [('Zero', 0, lambda o, d, k: d * 0, ()), ('Fill', 0, lambda o, d, k: d * 0 + k, 'k'), ('Copy', 1, lambda o, d, k: o[0], ()), ('Add', 2, lambda o, d, k: o[0] + o[1], ()), ('AddInplace', 1, lambda o, d, k: d + o[0], ()), ('AddConstant', 1, lambda o, d, k: o[0] + k, 'k'),
         ('AddConstantInplace', 0, lambda o, d, k: d + k, 'k'), ('Subtract', 2, lambda o, d, k: o[0] - o[1], ()), ('SubtractInplace', 1, lambda o, d, k: o[0] - d, ()), ('SubtractConstant', 1, lambda o, d, k: o[0] - k, 'k'), ('SubtractConstantInplace', 0, lambda o, d, k: d - k, 'k'),
         ('Multiply', 2, lambda o, d, k: o[0] * o[1], ()), ('MultiplyInplace', 1, lambda o, d, k: d * o[0], ()), ('MultiplyConstant', 1, lambda o, d, k: o[0] * k, 'k'), ('MultiplyConstantInplace', 0, lambda o, d, k: d * k, 'k'), ('MultiplyAdd', 3, lambda o, d, k: o[0] * o[1] + o[2], ()),
         ('MultiplyAddInplace', 2, lambda o, d, k: o[0] * o[1] + d, ()), ('MultiplyConstantAdd', 2, lambda o, d, k: k * o[0] + o[1], 'k'), ('MultiplyConstantAddInplace', 1, lambda o, d, k: k * o[0] + d, 'k')]
    return F
def vectors(c, quick):
    F = vfunctions(quick); fn, nOp, ref, hasK = F[c.choose(len(F), 'function')]; name, t = TYPES[c.choose(4, 'type')]; f = getattr(efl, 'vector' + fn); n = [0, 1, 5, 16][c.choose(4, 'elements')]; extra = [0, 3][c.choose(2, 'longer')]; vec = c.flag('vector class')
    k = 2.5 if name[:7] != 'Complex' else 1 - 2j; size = n + extra; ops = [values((size,), t, 3 + j) for j in range(nOp)]; d0 = values((size,), t, 9); V = getattr(efl, 'BasicVector' + name); mk = (lambda a: V(a, alignment=1)) if vec else (lambda a: a)
    def call(o, d, m=n): f(*([k] if hasK else []), *o, d, m) if fn != 'Fill' else f(k, d, m)
    def expect(d, e, what):
        near(c, np.array(d)[:n], e[:n], what)
        if (np.array(d)[n:] != d0[n:]).any(): c.fail('%s: elements beyond the %d requested were modified' % (what, n))
    e = np.concatenate([ref([o[:n] for o in ops], d0[:n], k).astype(t), d0[n:]]) if n else d0
    d = mk(d0.copy()); o = [mk(x) for x in ops]; call(o, d); expect(d, e, fn)
    for x, y in zip(o, ops):
        if (np.array(x) != y).any(): c.fail('operand modified')
    c.compared(4)
    def rejected(o, d, m, what):
        before = np.array(d).copy()
        if not raises(call, o, d, m): c.fail('%s: %s accepted' % (fn, what))
        if (np.array(d) != before).any(): c.fail('%s: %s changed the result' % (fn, what))
    rejected(o, mk(d0.copy()), size + 1, 'more elements than present')
    for j in range(nOp):
        if n: rejected([mk(values((n - 1,), t)) if i == j else x for i, x in enumerate(o)], mk(d0.copy()), n, 'operand with too few elements')
    if n: rejected(o, mk(values((n - 1,), t)), n, 'result with too few elements')
    rejected(o, mk(d0.copy()), -1, 'a negative number')
    if not vec:
        rejected(o, values((2, size + 1), t), n, 'two-dimensional result')
        if size > 1: rejected(o, stepped(d0, 0, 2), n, 'strided result'); rejected(o, neg(d0, 0), n, 'reversed result')
        rejected(o, readonly(d0), n, 'read-only result')
        for _, u in TYPES + [('', np.int32), ('', np.dtype('>f4'))]:
            if u != t and not (fn == 'Copy' and u == np.int32): # of another type: an error or the correct result, but never lost
                d = d0.real.astype(u) if not np.issubdtype(u, np.complexfloating) else d0.astype(u); before = d.copy(); ok = not raises(call, o, d, n); c.compared()
                if ok:
                    w = ref([x[:n].astype(u) if np.issubdtype(u, np.complexfloating) else x[:n].real.astype(u) for x in ops], before[:n], k); near(c, d[:n], w.astype(u) if np.issubdtype(u, np.complexfloating) else w.real, fn + ' with a result of another type', 1e-5)
        if nOp and n:
            j = c.choose(nOp, 'operand'); b = layout(c, ops[j]); d = d0.copy(); o = list(ops); o[j] = b
            if not raises(call, o, d): expect(d, e, fn + ' with another layout')
            elif b.strides[0] == b.itemsize: c.fail('a contiguous operand was rejected')
            elif (d != d0).any(): c.fail('rejected operand, but changed result')
    c.state('%s %s %d %d' % (fn, name, n, vec))
# Strided copies and conversions, ramps, IIR filters: no access beyond the arrays.
def strided(c, quick):
    n = [0, 1, 2, 5][c.choose(4, 'elements')]; si = 1 + c.choose(3, 'source stride'); sd = 1 + c.choose(3, 'destination stride'); which = c.choose(5, 'function'); ti, td = [(np.float32, np.float32), (np.float32, np.float64), (np.int16, np.float32), (np.float64, np.float32)][c.choose(4, 'types')]
    if which == 0: td = ti = {np.int16: np.float64}.get(ti, ti)
    si = si if which in (0, 2, 4) else 1; sd = sd if which in (0, 3, 4) else 1; ni = (n - 1) * si + 1 if n else 0; nd = (n - 1) * sd + 1 if n else 0
    f = [lambda a, d: efl.vectorCopyStrided(a, d, si, sd, n), lambda a, d: efl.vectorConvert(a, d, n), lambda a, d: efl.vectorConvertInputStride(a, d, n, si), lambda a, d: efl.vectorConvertOutputStride(a, d, n, sd), lambda a, d: efl.vectorConvertInputOutputStride(a, d, n, si, sd)][which]
    for ei in (0, 1, si, -1):
        for ed in (0, 1, sd, -1):
            if (ei < 0 or ed < 0) and n == 0: continue
            a = ((np.arange(ni + ei) * 3 + 1) % 7 / 8).astype(ti) if ti != np.int16 else ((np.arange(ni + ei) * 3 + 1) % 7 * 1024 - 2048).astype(ti); d = values((nd + ed,), td, 2); before = d.copy(); c.compared()
            try: f(a, d)
            except Exception:
                if (d != before).any(): c.fail('rejected, but the result is modified')
                if ei == si and ed == sd: c.fail('a sufficient array was rejected')
                continue
            if ei < 0 or ed < 0: c.fail('function %d accepts %d elements with stride %d and %d to %d elements with stride %d' % (which, len(a), si, n, len(d), sd))
            e = before.copy()
            for k in range(n): e[k * sd] = a[k * si]
            near(c, d, e, 'function %d' % which)
    c.state('%d %d %d %d' % (n, si, sd, which))
def iir(c, quick):
    n = [0, 1, 4][c.choose(3, 'elements')]; m = c.choose(4, 'sections'); ss = 1 + c.choose(4, 'state stride'); cs = [0, 1, 5, 7][c.choose(4, 'coefficient stride')]; t = [np.float32, np.float64][c.choose(2, 'type')]; vec = c.flag('vector class'); name = {np.float32: 'Float', np.float64: 'Double'}[t]
    mk = (lambda a: getattr(efl, 'BasicVector' + name)(a, alignment=1)) if vec else (lambda a: a); sn = (m - 1) * ss + 2 if m else 0; cn = (m - 1) * cs + 5 if m else 0
    for es, ec, eo in ((0, 0, 0), (1, 2, 3), (-1, 0, 0), (0, -1, 0), (0, 0, -1)):
        if (es < 0 or ec < 0) and m == 0 or eo < 0 and n == 0: continue
        x = values((n,), t); co = (values((cn + ec,), t, 1) / 4).astype(t); st = values((sn + es,), t, 5); y = mk(np.full(n + eo, 7, t)); S = mk(st.copy()); c.compared()
        try: efl.iirFilterBiquadsSingleChannel(mk(x), y, S, mk(co), n, m, ss, cs)
        except Exception:
            if es >= 0 and ec >= 0 and eo >= 0: raise
            continue
        if es < 0 or ec < 0 or eo < 0: c.fail('IIR filter accepts arrays that are too short')
        if ss < 2 and m > 1: continue # overlapping states
        z = x.astype(np.float64).copy(); s2 = st.astype(np.float64).copy()
        for j in range(m):
            q = co[j * cs:j * cs + 5].astype(np.float64)
            for k in range(n): u = z[k]; o = q[0] * u + s2[j * ss]; s2[j * ss] = s2[j * ss + 1] + q[1] * u - q[3] * o; s2[j * ss + 1] = q[2] * u - q[4] * o; z[k] = o
        near(c, np.array(y)[:n], z, 'filtered signal', 1e-4); near(c, np.array(S), s2, 'filter states', 1e-4)
        if (np.array(y)[n:] != 7).any(): c.fail('elements beyond the output modified')
    c.state('%d %d %d %d' % (n, m, ss, cs))

# Convolvers called directly: blocks of every layout, filters exchanged during operation, invalid arrays rejected without effect.
def convolvers(c, quick):
    kind = c.choose(3, 'convolver'); t = [np.float32, np.float64][c.choose(2, 'type')]; B = [4, 8][c.choose(2, 'period')]; L = [1, 5, 11][c.choose(3, 'filter length')]; ch = [1, 2, 3][c.choose(3, 'channels')]; nOut = 2
    V = {np.float32: efl.BasicMatrixFloat, np.float64: efl.BasicMatrixDouble}[t]; cls = getattr(rbbl, ['MultichannelConvolverUniform', 'CrossfadingConvolverUniform', 'InterpolatingConvolverUniform'][kind] + {np.float32: 'Float', np.float64: 'Double'}[t])
    h = [values((2, L), t, 3)]; r = [(0, 0, 0, 1.0), (ch - 1, 1, 1, 0.5)] + ([(0, 1, 1, 2.0)] if ch > 1 else []); rl = rbbl.FilterRoutingList([rbbl.FilterRouting(*q) for q in r])
    kw = dict(numberOfInputs=ch, numberOfOutputs=nOut, blockLength=B, maxFilterLength=L + 2, maxRoutingPoints=5, maxFilterEntries=4, initialRoutings=rl, initialFilters=V(h[0], alignment=1), alignment=0 if quick else [0, 4][c.choose(2, 'alignment')])
    if kind: kw['transitionSamples'] = B
    if kind == 2: kw['numberOfInterpolants'] = 2; kw['initialInterpolants'] = rbbl.InterpolationParameterSet([rbbl.InterpolationParameter(q, [0, 1], [0.25, 0.5]) for q in range(2)])
    v = cls(**kw); c.compared(6)
    for name, x in (('numberOfInputs', ch), ('numberOfOutputs', nOut), ('blockLength', B), ('maxFilterLength', L + 2), ('maxNumberOfFilterEntries', 4), ('numberOfRoutingPoints', len(r))):
        if getattr(v, name) != x: c.fail('%s is %s' % (name, getattr(v, name)))
    X = np.zeros((ch, 64), t); f = np.zeros((2, L + 2), t); f[:, :L] = h[0]
    for b in range(3):
        x = signal(b, ch, B).astype(t); a = layout(c, x) if b < (1 if quick else 2) else x; keep = a.copy(); X[:, 16 + b * B:16 + (b + 1) * B] = x
        for w in () if b == 2 else (x[:, :-1].copy(), np.zeros((ch + 1, B), t), np.zeros((ch, B), {np.float32: np.float64, np.float64: np.float32}[t]), np.zeros(ch * B, t), np.zeros((1, ch, B), t), np.zeros((ch, 2 * B), t)):
            c.compared()
            if not raises(v.process, w): c.fail('an array of type %s and shape %s was accepted' % (w.dtype, w.shape))
        try: y = v.process(a)
        except Exception:
            c.compared()
            if a.strides[1] == a.itemsize and a.strides[0] % a.itemsize == 0: c.fail('an array with consecutive channels was rejected')
            y = v.process(x)
        if (a != keep).any(): c.fail('the input was modified')
        if y.dtype != t: c.fail('output type')
        g = f if kind < 2 else np.tile(np.array([[0.25, 0.5]], t) @ f, (2, 1)); e = np.zeros((nOut, B))
        for i, o, q, k in r:
            e[o] += k * np.convolve(X[i].astype(np.float64), g[q].astype(np.float64))[16 + b * B:16 + (b + 1) * B]
        near(c, y, e, 'block %d' % b, 1e-4 if t == np.float32 else 1e-9)
        if kind == 0 and b == 0: # a new filter for the following blocks
            set_ = lambda ir, n, i: v.setImpulseResponse(ir, n, i)
            for ir, n, i in ((np.zeros((2, L), t), L, 0), (np.zeros(L, t), L + 1, 0), (np.zeros(L + 4, t), L + 4, 0), (np.zeros(L, t), L, 4), (np.zeros((), t), 1, 0)):
                c.compared()
                if not raises(set_, ir, n, i): c.fail('impulse response of shape %s with length %d for filter %d accepted' % (ir.shape, n, i))
            if c.flag('new filter'):
                h1 = values((L,), t, 8); set_(layout(c, h1), L, 1); f = f.copy(); f[1] = 0; f[1, :L] = h1
    c.state('%d %d %d %d' % (kind, B, L, ch))

# Objects of the scene: every attribute keeps what was assigned, lists of objects hold copies, references keep their owner.
def objects(c, quick):
    O = objectmodel; three = [0.5, -2.0, 3.25]; base = [('groupId', 3), ('level', 0.25), ('priority', 2)]; ps = [('x', 0.5), ('y', -2.0), ('z', 4.0), ('channelLockDistance', 1.5)]
    C = [('PointSource', 1, ps), ('PointSourceWithDiffuseness', 1, ps + [('diffuseness', 0.25)]), ('PointSourceExtent', 1, ps + [('width', 10.0), ('height', 20.0), ('depth', 2.0)]), ('PlaneWave', 1, [('azimuth', 30.0), ('elevation', -20.0), ('referenceDistance', 3.0)]), ('DiffuseSource', 1, []), ('HoaSource', 4, [('order', 1)]), ('ChannelObject', 2, []), ('PointSourceWithReverb', 1, ps)]
    name, nch, attrs = C[c.choose(len(C), 'class')]; cls = getattr(O, name); o = cls(7); attrs = base + attrs; c.compared(4)
    if o.objectId != 7: c.fail('object id')
    o.resetNumberOfChannels(nch)
    if name == 'HoaSource': o.order = 1
    if o.numberOfChannels != nch: c.fail('%d channels' % o.numberOfChannels)
    ai, aj = c.choose(len(attrs), 'first'), c.choose(len(attrs), 'second')
    for k in (ai, aj): setattr(o, *attrs[k])
    fresh = cls(7)
    for k, (a, x) in enumerate(attrs):
        w = x if k in (ai, aj) or a == 'order' else getattr(fresh, a)
        if k in (ai, aj) or a != 'channelLockDistance': c.compared(); near(c, getattr(o, a), w, 'attribute ' + a)
    if name == 'ChannelObject':
        o.outputChannels = [['a', 'b'], ['c']]; c.compared(3)
        if [sorted(x) for x in o.outputChannels] != [['a', 'b'], ['c']] or sorted(o[0]) != ['a', 'b'] or o.size() != 2 or len(o) != 2: c.fail('output channels')
        if not raises(lambda: o[2]) or not raises(o.setOutputChannel, 2, 'x'): c.fail('output channel beyond the end')
    chan = list(range(3, 3 + nch)); o.channels = chan
    if list(o.channels) != chan: c.fail('channels %s' % list(o.channels))
    if not raises(o.setChannelIndex, nch, 1): c.fail('channel index beyond the channels set')
    if 'x' in dict(attrs):
        o.position = three; near(c, [o.x, o.y, o.z], three, 'position'); near(c, o.position, three, 'position'); c.compared(2)
        for w in ([1], [1, 2, 3, 4], 'abc', [1, 2, None]):
            if not raises(setattr, o, 'position', w): c.fail('position %s accepted' % (w,))
        near(c, o.position, three, 'position after rejected ones')
    if name == 'PointSourceWithReverb':
        D = cls.DiscreteReflection; n = c.choose(3, 'reflections'); rs = []
        for k in range(n): d = D(); d.position = [k + 1, 2, 3]; d.level = 0.5 + k; d.delay = 0.25 * k; rs.append(d)
        o.setDiscreteReflections(rs); c.compared(4)
        if o.numberOfDiscreteReflections() != n: c.fail('%d reflections' % o.numberOfDiscreteReflections())
        for k in range(n): d = o.discreteReflection(k); near(c, [d.x, d.y, d.z, d.level, d.delay], [k + 1, 2, 3, 0.5 + k, 0.25 * k], 'reflection')
        if not raises(o.discreteReflection, n): c.fail('reflection beyond the end')
        if not raises(o.setDiscreteReflections, [None]): c.fail('None accepted')
        l = o.lateReverb; l.onsetDelay = 0.125; m = cls.numberOfLateReflectionSubbands
        for a in ('levels', 'attackTimes', 'decayCoefficients'):
            setattr(l, a, [0.5 * k for k in range(m)]); near(c, getattr(l, a), [0.5 * k for k in range(m)], a)
            for w in ([1.0] * (m - 1), [1.0] * (m + 1)):
                if not raises(setattr, l, a, w): c.fail('%d values for %s accepted' % (len(w), a))
            near(c, getattr(l, a), [0.5 * k for k in range(m)], a)
        near(c, o.lateReverb.onsetDelay, 0.125, 'onset delay')
    # lists of objects
    p = O.PointSource(2); p.x = 9; how = c.choose(4, 'list'); v = O.ObjectVector([o, p]) if how == 0 else O.ObjectVector(); c.compared(6)
    if how == 1: v.insert(o); v.insert(p)
    if how == 2: v.insert([o, p])
    if how == 3: v.insert(O.DiffuseSource(99)); v.set([o, p])
    def ids(v): return sorted(x.objectId for x in v)
    if ids(v) != [2, 7] or v.size != 2 or v.empty: c.fail('list contains %s' % ids(v))
    if type(v[7]) is not cls or type(v.at(2)) is not O.PointSource: c.fail('object types')
    for bad in ([None], [o, None], 'ab', [3]):
        for f in ('set', 'insert'):
            if not raises(getattr(v, f), bad): c.fail('%s accepts %s' % (f, bad))
        if not raises(O.ObjectVector, bad): c.fail('list created from %s' % (bad,))
    if ids(v) != [2, 7]: c.fail('rejected objects changed the list')
    p.x = 1; near(c, v[2].x, 9, 'copied object'); v[2].x = 5; near(c, v[2].x, 5, 'referenced object')
    ref = v[7]; lv = ref.level; w = O.ObjectVector(); w.assign(v); it = iter(w); j = v.writeJson(); del v; near(c, ref.level, lv, 'object of a deleted list')
    near(c, O.ObjectVector([p])[2].x, 1, 'object of a temporary list')
    if sorted(x.objectId for x in O.ObjectVector([p, o])) != [2, 7]: c.fail('iteration over a temporary list')
    del w
    if sorted(x.objectId for x in it) != [2, 7]: c.fail('iteration over a deleted list')
    u = O.ObjectVector()
    if not raises(u.fillFromJson, '{"objects": [}') or u.size: c.fail('invalid JSON')
    u.fillFromJson(j)
    if ids(u) != [2, 7]: c.fail('JSON round trip gives %s' % ids(u))
    near(c, [u[7].level, u[7].groupId, u[7].priority, u[2].x], [o.level, o.groupId, o.priority, 5], 'JSON round trip', 1e-4)
    if type(u[7]) is not cls: c.fail('JSON round trip: type')
    if name == 'ChannelObject' and [sorted(x) for x in u[7].outputChannels] != [['a', 'b'], ['c']]: c.fail('JSON round trip: output channels')
    u.remove(2)
    if ids(u) != [7] or not raises(u.at, 2) or not raises(lambda: u[1000]): c.fail('removal')
    u.clear()
    if u.size or not u.empty or list(u): c.fail('clear')
    c.state('%s %d %d %d' % (name, ai, aj, how))

# Routing and filter coefficient lists: sequences of operations against Python lists.
def routings(c, quick):
    kind = c.choose(3, 'list'); depth = 3 if quick else 4; E = [(0, 1), (1, 0), (2, 1)]; m = {}
    if kind == 0: new = lambda es: rbbl.FilterRoutingList([rbbl.FilterRouting(i, o, i + o, 0.5) for i, o in es]); get = lambda x: (x.inputIndex, x.outputIndex); ok = lambda x: x.filterIndex == x.inputIndex + x.outputIndex and x.gain == 0.5; add = lambda v, e: v.addRouting(e[0], e[1], e[0] + e[1], 0.5); sizes = [lambda v: v.size, len]; key = lambda e: e; rem = lambda v, e: v.removeRouting(*e)
    if kind == 1: new = lambda es: rbbl.SparseGainRoutingList([rbbl.SparseGainRouting(i + 3, i, o, 0.5) for i, o in es]); get = lambda x: (x.rowIndex, x.columnIndex); ok = lambda x: x.entryIndex == x.rowIndex + 3 and x.gain == 0.5; add = lambda v, e: v.addRouting(e[0] + 3, e[0], e[1], 0.5); sizes = [lambda v: v.size, len]; key = lambda e: e; rem = None
    if kind == 2: P = pml.SignalRoutingParameter; new = lambda es: P([P.Entry(i, o) for i, o in es]); get = lambda x: (x.input, x.output); ok = lambda x: True; add = lambda v, e: v.addRouting(*e); sizes = [lambda v: v.size]; key = lambda e: e[1]; rem = lambda v, e: v.removeRouting(P.Entry(*e))
    start = c.choose(2, 'start'); es = E[:2] if start else []; v = new(es); m = {key(e): e for e in es}
    for s in range(depth):
        op = c.choose(4, 'operation'); e = E[c.choose(3, 'entry')] if op < 2 else None; c.compared(2)
        if op == 0:
            if key(e) in m and m[key(e)] != e and kind == 2: # output already connected
                raises(add, v, e); m = {key(get(x)): get(x) for x in v}
            else: add(v, e); m[key(e)] = e
        if op == 1 and rem:
            r = rem(v, e)
            if r != (m.get(key(e)) == e): c.fail('removal of %s returned %s' % (e, r))
            if r: del m[key(e)]
        if op == 2:
            it = iter(v); old = sorted(m.values()); v = new(old)
            if sorted(get(x) for x in it) != old: c.fail('iteration over a deleted list')
        if op == 3 and kind < 2: # through JSON
            f = {0: '{"input": "%d", "output": "%d", "filter": "%d", "gain": 0.5}', 1: '{"row": "%d", "column": "%d", "index": "%d", "gain": 0.5}'}[kind]
            try: u = type(v).fromJson('[' + ','.join(f % (a[0], a[1], a[0] + a[1] if kind == 0 else a[0] + 3) for a in m.values()) + ']')
            except Exception: u = None
            if u is None: c.fail('JSON representation rejected')
            if u is not None: v = u
        if sorted(get(x) for x in v) != sorted(m.values()): c.fail('contains %s instead of %s' % (sorted(get(x) for x in v), sorted(m.values())))
        for x in v:
            if not ok(x): c.fail('entry changed')
        for f in sizes:
            if f(v) != len(m): c.fail('size %d instead of %d' % (f(v), len(m)))
        if v.empty != (not m): c.fail('empty')
        if kind == 1: # entries are addressed by their entry index
            for k in range(7):
                x = [a for a in m.values() if a[0] + 3 == k]
                if (get(v[k]) != x[0]) if x else (v[k].entryIndex != type(v[k]).invalidIndex): c.fail('indexing')
        if kind == 2:
            for a in m.values():
                if v.getInput(a[1]) != a[0] or v.getOutput(a[0]) != a[1]: c.fail('connections of %s' % (a,))
    if kind < 2:
        if list(type(v).fromJson('[]')): c.fail('empty JSON list')
        if not raises(type(v).fromJson, 'x') or not raises(type(v).fromJson, '[{}]'): c.fail('invalid JSON accepted')
    c.state('%d %d %s' % (kind, start, sorted(m.values())))
def biquads(c, quick):
    t = ['Float', 'Double'][c.choose(2, 'type')]; Q, QL, QM = (getattr(rbbl, 'BiquadCoefficient' + x + t) for x in ('', 'List', 'Matrix')); q = lambda k: Q(1 + k, 0.5 * k, -k, 0.25, 0.125 * k); val = lambda k: [1 + k, 0.5 * k, -k, 0.25, 0.125 * k]
    co = lambda x: [x.b0, x.b1, x.b2, x.a1, x.a2]; n = c.choose(3, 'sections'); n2 = c.choose(4, 'new sections'); rows = c.choose(3, 'filters'); rt = c.choose(3, 'representation'); ident = [1, 0, 0, 0, 0]
    near(c, co(q(2)), val(2), 'coefficients'); near(c, co(Q()), ident, 'default coefficients'); near(c, co(Q.fromJson(q(2).writeJson())), val(2), 'JSON'); near(c, co(Q.fromXml(q(2).writeXml())), val(2), 'XML')
    for a in ('b0', 'b1', 'b2', 'a1', 'a2'):
        x = q(1); setattr(x, a, 9); near(c, co(x), [9 if b == a else y for b, y in zip(('b0', 'b1', 'b2', 'a1', 'a2'), val(1))], 'after setting ' + a)
    w = [9, 8, 7, 6, 5]; x = Q(); x.data = w; near(c, co(x), w, 'data'); near(c, x.data, w, 'data read back'); y = Q(x); x.b0 = 1; near(c, co(y), w, 'copy'); near(c, co(Q(w)), w, 'coefficients from a list'); near(c, co(Q(tuple(w))), w, 'coefficients from a tuple'); near(c, [float(v) for v in str(y).split()[1::2]], w, 'text')
    x = Q(); x.loadJson(q(2).writeJson()); near(c, co(x), val(2), 'loadJson'); x = Q(); x.loadXml(q(2).writeXml()); near(c, co(x), val(2), 'loadXml'); c.compared(2)
    for v in ([], w[:4], w + [1]):
        if not raises(Q, v) and len(v): c.fail('%d coefficients accepted' % len(v))
        if not raises(setattr, x, 'data', v): c.fail('data with %d coefficients accepted' % len(v))
    if Q.numberOfCoefficients != 5: c.fail('number of coefficients')
    near(c, co(x), val(2), 'after invalid data')
    through = [lambda x: x, lambda x: type(x).fromJson(x.writeJson()), lambda x: type(x).fromXml(x.writeXml())][rt]
    l = QL([q(k) for k in range(n)]); l = through(l) if n else l; c.compared(4)
    if l.size != n or len(l) != n: c.fail('list size')
    for k in range(n): near(c, co(l[k]), val(k), 'list element')
    if [co(x) for x in QL([q(k) for k in range(n)])] != [val(k) for k in range(n)]: c.fail('iteration over a temporary list')
    if not raises(lambda: l[n]) or not raises(lambda: l[-1]) or not raises(l.__setitem__, n, q(1)): c.fail('index beyond the end')
    it = iter(QL([q(5)])); near(c, co(next(it)), val(5), 'iterator of a temporary list')
    l.resize(n2)
    if len(l) != n2: c.fail('resize')
    for k in range(n2): near(c, co(l[k]), val(k) if k < n else ident, 'element after resize')
    if n2: l[0] = q(7); near(c, co(l[0]), val(7), 'assigned element')
    m = QM(rows, n); c.compared(4)
    for r in range(rows):
        for k in range(n): near(c, co(m[r, k]), ident, 'default element'); m[r, k] = q(r + 2 * k)
    m = through(m) if rows * n and rt < 2 else m # no XML representation of matrices
    if (m.numberOfFilters, m.numberOfSections) != (rows, n if rows else 0): c.fail('matrix dimension %d %d' % (m.numberOfFilters, m.numberOfSections))
    def check(w):
        for r in range(rows):
            for k in range(n): near(c, co(m[r, k]), val(w(r, k)), 'matrix element')
    check(lambda r, k: r + 2 * k)
    for i in ((rows, 0), (0, n), (-1, 0)):
        if not raises(lambda: m[i]) or not raises(m.__setitem__, i, q(1)): c.fail('matrix element %s accessible' % (i,))
    check(lambda r, k: r + 2 * k)
    for r in range(rows):
        if [co(x) for x in m[r]] != [val(r + 2 * k) for k in range(n)]: c.fail('filter %d' % r)
    if rows:
        m[0] = QL([q(9) for k in range(n)]); check(lambda r, k: 9 if r == 0 else r + 2 * k)
        if not raises(m.__setitem__, 0, QL([q(3) for k in range(n + 1)])): c.fail('a filter with more sections was accepted')
        check(lambda r, k: 9 if r == 0 else r + 2 * k)
    if not raises(lambda: m[rows]) or not raises(m.setFilter, rows, QL([q(1) for k in range(n)])): c.fail('filter beyond the end')
    m.resize(rows + 1, n2)
    if (m.numberOfFilters, m.numberOfSections) != (rows + 1, n2): c.fail('matrix dimension after resize')
    c.state('%d %d %d %d' % (n, n2, rows, rt))

# Every kind of rcl component constructed in every documented way and run, against NumPy.
def rclcomponents(c, quick):
    n = [4, 8][c.choose(2, 'period')]; ctx = visr.SignalFlowContext(n, 48000); f32 = np.float32; K = ['Add', 'GainVector', 'GainMatrix', 'DelayVector', 'DelayMatrix', 'Fir', 'CrossfadingFir', 'InterpolatingFir', 'Biquad', 'SignalRouting', 'SparseGainMatrix', 'NullSource', 'TimeFrequency']; kind = K[c.choose(len(K), 'component')]
    i = [1, 2, 3][c.choose(3, 'inputs')]; o = 2; B = 3; X = np.concatenate([signal(b, i, n) for b in range(B)], axis=1).astype(np.float64); E = None; name = 'c'; parent = [] if c.flag('omit parent') and kind in ('Add', 'DelayMatrix', 'NullSource') else [None]
    def mat(a): # a matrix in one of the accepted forms
        k = c.choose(3, 'form'); return layout(c, a) if k == 0 else efl.BasicMatrixFloat(a, alignment=[1, 4][k - 1])
    def delayed(x, d): return np.concatenate([np.zeros(d), x])[:len(x)]
    if kind == 'Add':
        w = [1, 2][c.choose(2, 'width')]; comp = rcl.Add(ctx, name, *parent, **dict(width=w, numInputs=i)); S = np.concatenate([signal(b, w * i, n) for b in range(B)], axis=1).astype(np.float64); X = S; E = sum(S[k * w:(k + 1) * w] for k in range(i))
    elif kind == 'GainVector':
        comp = rcl.GainVector(ctx, name, None); g = values((i,), f32, 4); k = c.choose(3, 'form'); s = [{}, dict(initialGain=0.5), dict(initialGainsLinear=efl.BasicVectorFloat(g))][k]
        if k < 2: comp.setup(i, **s)
        else: comp.setup(i, 16, False, s['initialGainsLinear'])
        for w in (0, i - 1, i + 1):
            c.compared()
            if not raises(rcl.GainVector(ctx, name, None).setup, i, 16, False, efl.BasicVectorFloat(np.zeros(w, f32))): c.fail('%d initial gains for %d channels accepted' % (w, i))
        E = X * [np.ones((i, 1)), np.full((i, 1), 0.5), g[:, None]][k]
    elif kind == 'GainMatrix':
        g = values((o, i), f32, 3); k = c.choose(3, 'initial'); kw = [{}, dict(initialGains=0.25), dict(interpolationSteps=0, initialGains=None)][k]
        if k == 2: kw['initialGains'] = mat(g)
        comp = rcl.GainMatrix(ctx, name, None, i, o, controlInput=False, **kw); E = (np.ones((o, i)) * [1, 0.25, g][k]) @ X
        if k == 2:
            for w in (g.T if i != o else g[:1], np.zeros(3, f32), np.zeros((o, i + 1), f32), np.zeros((1, o, i), f32)):
                if not raises(rcl.GainMatrix, ctx, name, None, i, o, interpolationSteps=0, initialGains=w): c.fail('initial gains of shape %s accepted' % (w.shape,))
    elif kind in ('DelayVector', 'DelayMatrix'):
        sh = (i,) if kind == 'DelayVector' else (o, i); d = (np.arange(np.prod(sh)) % 3).reshape(sh); g = values(sh, f32, 4); k = c.choose(6, 'initial'); kw = dict(interpolationSteps=16, maxDelay=0.01, interpolationType='nearestSample', methodDelayPolicy=rcl.DelayMatrix.MethodDelayPolicy.Limit, controlInputs=getattr(rcl, kind).ControlPortConfig.No)
        V = efl.BasicVectorFloat if kind == 'DelayVector' else efl.BasicMatrixFloat; ds = (d / 48000).astype(f32)
        if k == 1: kw.update(initialDelay=2 / 48000, initialGain=0.5)
        if k == 2: kw.update(initialDelay=V(ds), initialGain=V(g))
        if k == 3 and kind == 'DelayVector': kw.update(initialDelay=layout(c, ds), initialGain=g)
        if k == 4: kw.update(initialDelay=V(ds)); g = np.ones(sh)
        if k == 5: kw.update(initialGain=V(g)); d = np.zeros(sh, int)
        if k > 2 and kind != 'DelayVector': return
        comp = getattr(rcl, kind)(ctx, name, None, *sh[::-1], **kw)
        if k == 2:
            wrong = [(0,), (i - 1,), (i + 1,)] if kind == 'DelayVector' else [(0, 0), (o, i + 1), (o + 1, i), (1, i)]
            for a, b in [(w, sh) for w in wrong] + [(sh, w) for w in wrong]:
                if (a == (0,) or b == (0,)): continue # the default value
                c.compared(); kw.update(initialDelay=V(np.zeros(a, f32)), initialGain=V(np.zeros(b, f32)))
                if not raises(getattr(rcl, kind), ctx, name, None, *sh[::-1], **kw): c.fail('%s: initial values of shapes %s and %s accepted' % (kind, a, b))
        if k == 0: d, g = np.zeros(sh, int), np.ones(sh)
        if k == 1: d, g = np.full(sh, 2), np.full(sh, 0.5)
        E = np.stack([delayed(X[q], d[q]) * g[q] for q in range(i)]) if kind == 'DelayVector' else np.stack([sum(delayed(X[q], d[p, q]) * g[p, q] for q in range(i)) for p in range(o)])
    elif kind.endswith('Fir'):
        L = [3, 9][c.choose(2, 'length')]; h = values((3, L), f32, 2); r = [(0, 0, 0, 1.0), (i - 1, 1, 2, 0.5)] + ([(0, 1, 1, 2.0)] if i > 1 else []); cls = getattr(rcl, kind.replace('Fir', 'FirFilterMatrix')); kw = dict(numberOfInputs=i, numberOfOutputs=o, filterLength=L, maxFilters=3, maxRoutings=4, filters=mat(h), routings=rbbl.FilterRoutingList([rbbl.FilterRouting(*q) for q in r]), controlInputs=cls.ControlPortConfig.NoInputs)
        if kind != 'Fir': kw['transitionSamples'] = n
        if kind == 'InterpolatingFir': kw.update(numberOfInterpolants=2, interpolants=rbbl.InterpolationParameterSet([rbbl.InterpolationParameter(q, [q, (q + 1) % 3], [0.25, 0.5]) for q in range(3)])); h = np.stack([0.25 * h[q] + 0.5 * h[(q + 1) % 3] for q in range(3)])
        comp = cls(ctx, name, None, **kw); E = np.zeros((o, B * n))
        for a, b, q, g in r: E[b] += g * np.convolve(X[a], h[q])[:B * n]
        for w in (np.zeros((3, L)), np.zeros(3 * L, f32), np.zeros((3, L), np.int32), np.zeros((4, L), f32), np.zeros((3, L + 1), f32)):
            kw['filters'] = w; c.compared()
            if not raises(cls, ctx, name, None, **kw): c.fail('filters of type %s and shape %s accepted' % (w.dtype, w.shape))
    elif kind == 'Biquad':
        m = [1, 2][c.choose(2, 'sections')]; q = lambda k: [1 + 0.25 * k, 0.5, -0.25 * k, 0.25, 0.125]; Q = lambda k: rbbl.BiquadCoefficientFloat(*q(k)); k = c.choose(4, 'initial'); A = [(), (Q(1),), (rbbl.BiquadCoefficientListFloat([Q(s) for s in range(m)]),), (rbbl.BiquadCoefficientMatrixFloat(i, m),)][k]
        if k == 3:
            for a in range(i):
                for s in range(m): A[0][a, s] = Q(a + 2 * s)
        comp = rcl.BiquadIirFilter(ctx, name, None, i, m, *A, controlInput=False); E = X.copy()
        for a in range(i):
            for s in range(m):
                b0, b1, b2, a1, a2 = [[1, 0, 0, 0, 0], q(1), q(s), q(a + 2 * s)][k]; z = E[a].copy(); s1 = s2 = 0
                for t in range(len(z)): u = z[t]; y = b0 * u + s1; s1 = s2 + b1 * u - a1 * y; s2 = b2 * u - a2 * y; E[a, t] = y
    elif kind == 'SignalRouting':
        P = pml.SignalRoutingParameter; r = {0: i - 1, 2: 0} if c.flag('initial') else {}; comp = rcl.SignalRouting(ctx, name, None, i, 3, *([P([P.Entry(a, b) for b, a in r.items()])] if r else []), controlInput=False); E = np.stack([X[r[b]] if b in r else 0 * X[0] for b in range(3)])
    elif kind == 'SparseGainMatrix':
        r = [(0, 0, 0, 1.0), (1, 1, i - 1, 0.5)]; r = r[:c.choose(3, 'routings')]; comp = rcl.SparseGainMatrix(ctx, name, None, i, o, interpolationSteps=n, maxRoutingPoints=3, initialRoutings=rbbl.SparseGainRoutingList([rbbl.SparseGainRouting(*q) for q in r])); E = np.zeros((o, B * n))
        for e, row, col, g in r: E[row] += g * X[col] * np.minimum(np.arange(1, B * n + 1) / n, 1)
    elif kind == 'NullSource': comp = rcl.NullSource(ctx, name, *parent, **(dict(width=i) if i > 1 else {})); X = np.zeros((0, B * n)); E = np.zeros((i, B * n))
    elif kind == 'TimeFrequency':
        comp = Comp(ctx, name); k = c.choose(3, 'window'); N = rcl.TimeFrequencyTransform.Normalisation; M = rcl.TimeFrequencyInverseTransform.Normalisation; j = c.choose(3, 'normalisation'); w = np.full(n, 0.5, f32); norm = [(N.One, M.OneOverN), (N.Unitary, M.Unitary), (N.OneOverN, M.One)][j]
        a = rcl.TimeFrequencyTransform(ctx, 'a', comp, i, 2 * n, *[(n,), (efl.BasicVectorFloat(w),), (w.tolist(),)][k], n, normalisation=norm[0]); comp.a = a; comp.b = b = rcl.TimeFrequencyInverseTransform(ctx, 'b', comp, i, 2 * n, n, normalisation=norm[1]); comp.ai = visr.AudioInputFloat('in', comp, i); comp.ao = visr.AudioOutputFloat('out', comp, i)
        comp.audioConnection(comp.ai, a.audioPort('in')); comp.audioConnection(b.audioPort('out'), comp.ao); comp.parameterConnection(a.parameterPort('out'), b.parameterPort('in')); E = X * (np.tile(0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n), B) if k == 0 else 0.5)
    flow = rrl.AudioSignalFlow(comp); Y = []
    for b in range(B): Y.append(flow.process(X[:, b * n:(b + 1) * n].astype(f32)) if X.shape[0] else flow.process())
    near(c, np.concatenate(Y, axis=1), E, kind, 1e-4); c.state('%s %d %d' % (kind, i, n))

# Loudspeaker arrays and VBAP. Ring of n loudspeakers, some of them virtual, with subwoofers and equalisers.
def loudspeakers(c, quick):
    n = [4, 5, 8][c.choose(2 if quick else 3, 'ring')]; nv = c.choose(3, 'virtual'); op = c.choose(4, 'operation'); ns, eq = (c.choose(3, 'subwoofers'), c.choose(3, 'biquads')) if op < 2 else (1, 1)
    nr = n - nv; real = [(k * n // nr) if nv else k for k in range(nr)]; virt = [k for k in range(n) if k not in real]; f32 = np.float32; f2 = lambda x: float(f32(x))
    ident = lambda k: 'S%d' % k; az = lambda k: 360.0 * k / n; chan = lambda j: 2 * (nr - j) # one-offset output channels, in descending order of the elements
    gain = lambda j: [1.0, 0.5, 0.25][j % 3]; delay = lambda j: [0.0, 0.001, 0.002][j % 3]; rg = lambda v, j: [-6.0, 0.0][(v + j) % 2]
    x = ['<panningConfiguration dimension="2" infinite="true">']
    for j, k in enumerate(real): x.append('<loudspeaker id="%s" channel="%d" gain="%g" delay="%g"%s><polar az="%g" r="1.0"/></loudspeaker>' % (ident(k), chan(j), gain(j), delay(j), ' eq="e"' if eq and j == 0 else '', az(k)))
    for v, k in enumerate(virt): x.append('<virtualspeaker id="%s"><polar az="%g" r="1.0"/>%s</virtualspeaker>' % (ident(k), az(k), ''.join('<route lspId="%s" gainDB="%g"/>' % (ident(real[j]), rg(v, j)) for j in range(2))))
    for k in range(n): x.append('<triplet l1="%s" l2="%s"/>' % (ident(k), ident((k + 1) % n)))
    for s in range(ns): x.append('<subwoofer channel="%d" assignedLoudspeakers="%s" weights="%s" gain="%g" delay="%g"/>' % (2 * s + 1, ', '.join(ident(real[j]) for j in range(s + 1)), ', '.join('%g' % (j + 2) for j in range(s + 1)), gain(s + 1), delay(s + 2)))
    if eq: x.append('<outputEqConfiguration type="iir" numberOfBiquads="%d"><filterSpec name="e">%s</filterSpec></outputEqConfiguration>' % (eq, ''.join('<biquad b0="%d" b1="0.5" b2="0.25" a1="-0.5" a2="0.125"/>' % (q + 1) for q in range(eq))))
    text = '\n'.join(x) + '</panningConfiguration>'; la = panning.LoudspeakerArray(); la.loadXmlString(text)
    order = list(range(nr))[::-1]; pos = lambda k: [np.cos(np.radians(az(k))), np.sin(np.radians(az(k))), 0.0] # regular loudspeakers are sorted by channel
    index = {real[j]: i for i, j in enumerate(order)}
    for k in virt: index[k] = la.getSpeakerIndexFromId(ident(k))
    if sorted(index.values()) != list(range(n)): c.fail('loudspeaker indices %s' % index)
    back = {i: k for k, i in index.items()}; bad = (1000, 2 ** 40, -1)
    if op == 0:
        if (la.totNumberOfLoudspeakers, la.numberOfRegularLoudspeakers, la.numberOfTriplets, la.numberOfSubwoofers, la.is2D, la.isInfinite) != (n, nr, n, ns, True, True): c.fail('sizes')
        near(c, la.positions(), np.array([pos(back[i]) for i in range(n)]), 'positions', 1e-5)
        for k in range(n): near(c, la.position(ident(k)).getLength(), 1, 'distance', 1e-5); c.compared(); la.getSpeakerIndexFromId(ident(k)) == index[k] or c.fail('index of %d' % k)
        ch = [chan(j) for j in order]; near(c, la.channelIndices(), ch, 'channels'); near(c, la.subwooferChannelIndices(), [2 * s + 1 for s in range(ns)], 'subwoofer channels')
        for i in range(nr): near(c, [la.getSpeakerChannelIndex(i), la.getSpeakerChannel(i), la.getSpeakerChannelFromId(ident(back[i]))], [ch[i]] * 3, 'channel'); near(c, [la.getLoudspeakerGainAdjustment(i), la.getLoudspeakerDelayAdjustment(i)], [gain(order[i]), delay(order[i])], 'adjustment')
        for s in range(ns): near(c, [la.subwooferChannelIndex(s), la.getSubwooferGainAdjustment(s), la.getSubwooferDelayAdjustment(s)], [2 * s + 1, gain(s + 1), delay(s + 2)], 'subwoofer adjustment')
        near(c, la.getGainAdjustments(), [gain(j) for j in order] + [gain(s + 1) for s in range(ns)], 'gain adjustments'); near(c, la.getDelayAdjustments(), [delay(j) for j in order] + [delay(s + 2) for s in range(ns)], 'delay adjustments')
        for i in (nr, n, n + 1) + bad:
            c.compared(4)
            for f in (la.getSpeakerChannelIndex, la.getSpeakerChannel): raises(f, i) or c.fail('channel of loudspeaker %d of %d' % (i, nr))
            for f in (la.subwooferChannelIndex, la.getSubwooferGainAdjustment, la.getSubwooferDelayAdjustment): i < ns or raises(f, i) or c.fail('subwoofer %d of %d' % (i, ns))
            for f in (la.getLoudspeakerGainAdjustment, la.getLoudspeakerDelayAdjustment): 0 <= i < nr + ns or raises(f, i) or c.fail('adjustment of loudspeaker %d of %d' % (i, nr))
        for f in (la.position, la.getSpeakerIndexFromId, la.getSpeakerChannelFromId): raises(f, 'unknown') or c.fail('unknown loudspeaker')
        for k in virt: raises(la.getSpeakerChannelFromId, ident(k)) or c.fail('channel of a virtual loudspeaker')
    elif op == 1:
        tri = lambda: sorted(tuple(sorted(la.getTriplet(i)[:2])) for i in range(n)); want = sorted(tuple(sorted((index[k], index[(k + 1) % n]))) for k in range(n)); c.compared(n)
        if tri() != want: c.fail('triplets %s instead of %s' % (tri(), want))
        T = [list(la.getTriplet(i)) for i in range(n)]
        for i in (n, n + 1) + bad:
            raises(la.getTriplet, i) or c.fail('triplet %d of %d' % (i, n)); raises(la.setTriplet, i, 0, 1, 2) or c.fail('triplet %d of %d set' % (i, n))
            for q in range(3): raises(la.setTriplet, 0, *[i if q == p else p for p in range(3)]) or c.fail('loudspeaker %d in a triplet' % i)
        if [list(la.getTriplet(i)) for i in range(n)] != T: c.fail('triplets changed by invalid calls')
        la.setTriplet(n - 1, 2, 0, 1); T[-1] = [2, 0, 1]; c.compared(n)
        if [list(la.getTriplet(i)) for i in range(n)] != T: c.fail('setTriplet')
        S = np.zeros((ns, nr)); R = np.zeros((nv, nr))
        for s in range(ns):
            for j in range(s + 1): S[s, index[real[j]]] = j + 2
        for v, k in enumerate(virt):
            for j in range(2): R[index[k] - nr, index[real[j]]] = 10 ** (rg(v, j) / 20)
        for v in range(nv):
            for i in range(nr): near(c, la.getReRoutingCoefficient(v, i), R[v, i], 'routing', 1e-5)
        for v, i in [(nv, 0), (0, nr), (nv + 5, nr + 5), (-1, 0), (0, -1)]: raises(la.getReRoutingCoefficient, v, i) or c.fail('routing of %d to %d' % (v, i))
        if la.isOutputEqualisationPresent() != (eq > 0) or la.outputEqualisationNumberOfBiquads() != eq: c.fail('equaliser')
        if eq:
            m = la.outputEqualisationBiquads(); w = lambda i, q: [q + 1, 0.5, 0.25, -0.5, 0.125] if i < nr and order[i] == 0 else [1, 0, 0, 0, 0]
            for i in range(nr + ns):
                for q in range(eq): b = m[i, q]; near(c, [b.b0, b.b1, b.b2, b.a1, b.a2], w(i, q), 'equaliser')
        elif not raises(la.outputEqualisationBiquads): c.fail('equaliser of an array without one')
        g, r = la.getSubwooferGains(), la.getReRoutingCoefficients()
        if c.flag('delete array'): la = None
        near(c, np.array(g).reshape(ns, nr) if ns else S, S, 'subwoofer gains', 1e-5); near(c, np.array(r).reshape(nv, nr) if nv else R, R, 'routings', 1e-5)
    else:
        k = c.choose(n, 'source') + (0.5 if c.flag('between') else 0); E = np.zeros(n); un = op == 3; pw = c.flag('plane wave'); near_ = [int(k)] if k == int(k) else [int(k), (int(k) + 1) % n]
        vb = panning.VBAP(la, *([0.0, 0.0, 0.0] if c.flag('listener position') else [])); s = pos(k)
        if c.flag('delete array'): la = None
        f = vb.calculateGainsUnNormalised if un else vb.calculateGains; w = 1 if len(near_) == 1 else 1 / (2 * np.cos(np.pi / n))
        for q in near_: E[index[q]] = w
        for v in virt:
            if E[index[v]]:
                for j in range(2): E[index[real[j]]] += E[index[v]] * 10 ** (rg(virt.index(v), j) / 20)
        E = E[:nr]; E = E if un else E / np.sqrt((E ** 2).sum()); kind = c.choose(8, 'gains'); dev = lambda y: np.abs(np.asarray(y, float) - E).max()
        if kind == 0:
            y = np.full(nr + 3, 55, f32); f(*s, y, pw); near(c, y[:nr], E, 'gains', 1e-4); near(c, y[nr:], [55] * 3, 'elements beyond the gains')
        if kind == 1: # strided views
            for st, o in ((2, 0), (3, 2), (-1, -1), (-2, -1)):
                b = np.full(3 * nr + 3, 55, f32); y = b[o::st][:nr]; before = np.ones(len(b), bool); before[np.arange(len(b))[o::st][:nr]] = False; f(*s, y, pw); near(c, y, E, 'gains in a view', 1e-4); near(c, b[before], np.full(before.sum(), 55), 'elements outside of the view')
        if kind == 2: y = packed(np.full(nr, 55, f32)); f(*s, y, planeWave=pw); near(c, y, E, 'gains in records', 1e-4)
        if kind == 3: y = readonly(np.full(nr, 55, f32)); raises(f, *s, y, pw) or c.fail('read-only gains'); near(c, y, [55] * nr, 'read-only gains')
        if kind == 4:
            for t in (np.float64, np.int32, '>f4', np.complex64, object):
                y = np.full(nr, 55).astype(t); th = raises(f, *s, y, pw); c.compared()
                if not th and dev(y.astype(complex).real) > 1e-4: c.fail('gains of type %s are lost' % (t,))
                if th and not (y == 55).all(): c.fail('gains of type %s changed' % (t,))
        if kind == 5:
            for y in (np.full(nr - 1, 55, f32), np.zeros(0, f32), np.full((nr, 1), 55, f32), np.full((1, nr), 55, f32), np.array(55, f32), [55.0] * nr, 5.0, None):
                raises(f, *s, y, pw) or c.fail('gains %r accepted' % (y,))
                if isinstance(y, np.ndarray) and not (y == 55).all(): c.fail('gains changed')
        if kind == 6: vb.setListenerPosition(0.0, 0.0, 0.0); y = np.zeros(nr, f32); f(x=s[0], y=s[1], z=s[2], gains=y, planeWave=pw); near(c, y, E, 'gains', 1e-4)
        if kind == 7: y = np.zeros((nr, 2), f32); f(*s, y[:, 1], pw); near(c, y[:, 1], E, 'gains in a column', 1e-4); near(c, y[:, 0], np.zeros(nr), 'other column')
    c.state('%d %d %d %d' % (n, nv, ns, eq))

# Parameters and component for panning gains with time stamps.
def panningmatrix(c, quick):
    o = c.choose(3 if quick else 4, 'objects') + 1; l = c.choose(2, 'loudspeakers') + 1; f32 = np.float32; u64 = np.uint64; G = values((o, l), f32, 3); op = c.choose(3, 'operation'); PM = panningdsp.PanningMatrixParameter; INF = 2 ** 64 - 1
    ts = (np.arange(o) * 5 + 3).astype(u64); tt = (np.arange(o) * 4 + 2).astype(u64)
    def same(p, g, a, b): near(c, np.array(p.gains), g, 'gains'); c.compared(2 * o); (p.numberOfObjects, p.numberOfLoudspeakers) == (o, l) or c.fail('size'); [int(x) for x in p.timeStamps] == [int(x) for x in a] or c.fail('time stamps %s' % p.timeStamps); [int(x) for x in p.transitionTimes] == [int(x) for x in b] or c.fail('transition times %s' % p.transitionTimes)
    if op == 0:
        a = [0, 1, 4, 8][c.choose(4, 'alignment')]; k = c.choose(4, 'constructor'); z = np.zeros((o, l), f32); i = np.full(o, INF, u64)
        if k == 0: p = PM(layout(c, G), layout(c, ts), tt, a); same(p, G, ts, tt); p.alignmentElements in (a, max(a, 1)) or c.fail('alignment %d' % p.alignmentElements)
        if k == 1: p = PM(G.astype(np.float64), ts.astype(np.int32), tt.tolist(), alignment=a); same(p, G, ts, tt)
        if k == 2: p = PM(o, l, alignment=a); same(p, z, i, i); p.alignmentElements in (a, max(a, 1)) or c.fail('alignment %d' % p.alignmentElements)
        if k == 3: p = PM(pml.MatrixParameterConfig(o, l)); same(p, z, i, i)
        for n in (0, o - 1, o + 1):
            if n >= 0:
                c.compared(2); raises(PM, G, ts, np.zeros(n, u64), a) or c.fail('%d transition times for %d objects accepted' % (n, o)); raises(PM, G, np.zeros(n, u64), tt, a) or c.fail('%d time stamps for %d objects accepted' % (n, o))
        for w in (np.zeros((o, 1), u64), np.array(3, u64)): raises(PM, G, w, tt, a) or c.fail('time stamps of dimension %d' % w.ndim); raises(PM, G, ts, w, a) or c.fail('transition times of dimension %d' % w.ndim)
        for w in (G[0], G[None]): raises(PM, w, ts, tt, a) or c.fail('gains of dimension %d' % w.ndim)
    elif op == 1:
        p = PM(o, l, 4); p.gains = layout(c, G); p.timeStamps = layout(c, ts); p.transitionTimes = tt; same(p, G, ts, tt)
        for n, w in [('gains', np.zeros((o + 1, l), f32)), ('gains', np.zeros((o, l + 1), f32)), ('gains', np.zeros((o - 1, l), f32)), ('gains', np.zeros(o * l, f32)), ('gains', None)] + [(n, w) for n in ('timeStamps', 'transitionTimes') for w in (np.zeros(o + 1, u64), np.zeros(o - 1, u64), np.zeros((o, 1), u64), None)]:
            raises(setattr, p, n, w) or c.fail('%s of wrong size accepted' % n); same(p, G, ts, tt)
        x = p.timeStamps; x[0] = 99; y = p.transitionTimes; y[0] = 98; g = p.gains; same(p, G, ts, tt); p = None; near(c, np.array(g), G, 'gains of a deleted parameter')
    else:
        n = 4; ctx = visr.SignalFlowContext(n, 48000); comp = Comp(ctx, 'c'); comp.ai = visr.AudioInputFloat('in', comp, o); comp.ao = visr.AudioOutputFloat('out', comp, l); H = values((o, l), f32, 9); B = 6; at = c.choose(2, 'period of the message'); tr = c.choose(3, 'transition')
        form = c.choose(3, 'initial gains'); ini = [lambda: layout(c, G), lambda: efl.BasicMatrixFloat(G), lambda: G.astype(np.float64)][form]()
        class S(visr.AtomicComponent):
            def __init__(self): super().__init__(ctx, 'sender', comp); self.o = visr.ParameterOutput('o', self, PM.staticType, pml.DoubleBufferingProtocol.staticType, pml.MatrixParameterConfig(o, l)); self.t = 0
            def process(self):
                if self.t == at: d = self.o.protocolOutput().data(); d.gains = H; d.timeStamps = np.array([(at + 1 + q) * n for q in range(o)], u64); d.transitionTimes = np.full(o, [0, 1, n][tr], u64); self.o.protocolOutput().swapBuffers()
                self.t += 1
        s = S(); m = panningdsp.PanningGainMatrix(ctx, 'm', comp, o, l, ini); comp.audioConnection(comp.ai, m.audioPort('in')); comp.audioConnection(m.audioPort('out'), comp.ao); comp.parameterConnection(s.parameterPort('o'), m.parameterPort('gainInput'))
        flow = rrl.AudioSignalFlow(comp); X = np.ones((o, B * n)) * (2.0 ** np.arange(o))[:, None]; Y = np.concatenate([flow.process(X[:, b * n:(b + 1) * n].astype(f32)) for b in range(B)], axis=1)
        for q in range(o): # one object after the other has completed its transition
            t = (at + 1 + q) * n; T = [0, 1, n][tr]
            if t > 0: E = sum(np.outer((G + (H - G) * (min(max((t - (at + 1 + p) * n) / T, 0), 1) if T else t - 1 >= (at + 1 + p) * n))[p], X[p]) for p in range(o)); near(c, Y[:, t - 1], E[:, t - 1], 'gains before the transition of object %d' % q, 1e-4)
        E = H.T @ X; near(c, Y[:, (at + 1 + o) * n + 1:], E[:, (at + 1 + o) * n + 1:], 'gains after all transitions', 1e-4)
        for w in (np.zeros((l + 1, o), f32), np.zeros((o + 1, l), f32), np.zeros(o * l, f32)): raises(panningdsp.PanningGainMatrix, ctx, 'm', None, o, l, w) or c.fail('initial gains of shape %s accepted' % (w.shape,))
    c.state('%d %d %d' % (o, l, op))

# Positions, quaternions and listener positions.
def geometry(c, quick):
    t = c.choose(2, 'type'); Q, P = [(rbbl.Quaternion, rbbl.Position3D), (rbbl.QuaternionDouble, rbbl.Position3DDouble)][t]; L = pml.ListenerPosition; ft = [np.float32, np.float64][t]; tol = [1e-5, 1e-9][t]
    a = [-2.0, 0.0, 1.0, 2.5][c.choose(3 if quick else 4, 'azimuth')]; e = [-0.5, 0.0, 1.0][c.choose(3, 'elevation')]; r = [0.0, 0.75, -2.0][c.choose(3, 'roll')]; op = c.choose(4, 'operation'); v = np.array([1.0, -2.0, 0.5]); w = np.array([3.0, 0.25, -1.0])
    rx = lambda x: np.array([[1, 0, 0], [0, np.cos(x), -np.sin(x)], [0, np.sin(x), np.cos(x)]]); ry = lambda x: np.array([[np.cos(x), 0, np.sin(x)], [0, 1, 0], [-np.sin(x), 0, np.cos(x)]]); rz = lambda x: np.array([[np.cos(x), -np.sin(x), 0], [np.sin(x), np.cos(x), 0], [0, 0, 1]])
    M = rz(a) @ ry(e) @ rx(r); co = lambda x: [x.x, x.y, x.z]; qc = lambda x: [x.w, x.x, x.y, x.z]
    def mat(q):
        W, X, Y, Z = qc(q); return np.array([[1 - 2 * (Y * Y + Z * Z), 2 * (X * Y - Z * W), 2 * (X * Z + Y * W)], [2 * (X * Y + Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z - X * W)], [2 * (X * Z - Y * W), 2 * (Y * Z + X * W), 1 - 2 * (X * X + Y * Y)]])
    def mul(p, q): return [p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2], p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1], p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0]]
    q = [lambda: Q.fromYPR(a, e, r), lambda: Q.fromYPR([a, e, r]), lambda: Q.fromYPR(yaw=a, pitch=e, roll=r)][c.choose(3, 'creation')](); near(c, mat(q), M, 'rotation matrix', tol * 10)
    if op == 0: # positions
        p = [lambda: P(*v), lambda: P(x=v[0], y=v[1], z=v[2]), lambda: P(v.tolist()), lambda: P(v)][c.choose(4, 'position')](); near(c, co(p), v, 'coordinates'); near(c, list(p), v, 'iteration'); c.compared(8); len(p) == 3 or c.fail('length')
        for i in (3, 4, 1000, -1, 2 ** 40): raises(lambda: p[i]) or c.fail('coordinate %d' % i); raises(p.__setitem__, i, 1.0) or c.fail('coordinate %d set' % i)
        near(c, [p[i] for i in range(3)], v, 'elements'); b = np.array(p); b.dtype == ft or c.fail('type'); near(c, b, v, 'array'); mv = np.asarray(p); mv[1] = 7; near(c, p.y, 7, 'view'); p[1] = v[1]; p2 = P(); near(c, co(p2), [0] * 3, 'default'); p2.set(*w); near(c, co(p2), w, 'set'); p2.set(v.tolist()); near(c, co(p2), v, 'set from a list'); p2.x, p2.y, p2.z = w; near(c, p2, w, 'setters')
        del_ = np.asarray(P(*w)); near(c, del_, w, 'array of a deleted position')
        for x in ([1, 2], [1, 2, 3, 4], []): raises(P, x) or not x or c.fail('%d coordinates accepted' % len(x)); raises(p.set, x) or c.fail('set of %d coordinates' % len(x))
        near(c, p + p2, v + w, '+'); near(c, p - p2, v - w, '-'); near(c, -p, -v, 'negation'); near(c, 2.0 * p, 2 * v, '*'); near(c, p / 2.0, v / 2, '/'); x = P(*v); x += p2; near(c, x, v + w, '+='); x -= p2; near(c, x, v, '-=', 1e-5); x *= 3.0; near(c, x, 3 * v, '*=', 1e-5)
        near(c, [p.norm(), p.normSquare()], [np.sqrt(v @ v), v @ v], 'norm', tol); x = P(*v); x.normalise(); near(c, x, v / np.sqrt(v @ v), 'normalise', tol); near(c, rbbl.normalise(p), v / np.sqrt(v @ v), 'normalise', tol); near(c, rbbl.dot(p, p2), v @ w, 'dot', tol); near(c, rbbl.angle(lhs=p, rhs=p2), np.arccos(v @ w / np.sqrt(v @ v) / np.sqrt(w @ w)), 'angle', 100 * tol)
        raises(P().normalise) or c.fail('normalisation of zero'); raises(P().normalise, silentDivideByZero=True) and c.fail('silent normalisation of zero'); near(c, p, v, 'position after the operations')
        x = P(*v); x.rotate(q); near(c, x, M @ v, 'rotate', 10 * tol); near(c, rbbl.rotate(p, q), M @ v, 'rotate', 10 * tol); near(c, rbbl.rotate(val=p, rotation=q), M @ v, 'rotate', 10 * tol); x = P(*v); x.translate(shift=p2); near(c, x, v + w, 'translate'); x = P(*v); x.transform(rot=q, shift=p2); near(c, x, M @ v + w, 'transform', 10 * tol); near(c, rbbl.transform(val=p, rotation=q, shift=p2), M @ v + w, 'transform', 10 * tol)
    if op == 1: # quaternions
        near(c, qc(Q()), [0] * 4 if qc(Q())[0] == 0 else [1, 0, 0, 0], 'default'); d = [0.5, -1.0, 2.0, 0.25]; s = Q(*d); near(c, qc(s), d, 'coefficients'); near(c, qc(Q(d)), d, 'coefficients from a list'); near(c, qc(Q(s)), d, 'copy'); near(c, s.data, d, 'data'); y = Q(); y.data = d; near(c, y.data, d, 'data'); y.set(w=4, x=3, y=2, z=1); near(c, qc(y), [4, 3, 2, 1], 'set'); y.w, y.x, y.y, y.z = d; near(c, qc(y), d, 'setters'); D = np.array(d); A = np.array(qc(q))
        for x in (d[:3], d + [1]): raises(Q, x) or c.fail('%d coefficients' % len(x)); raises(setattr, y, 'data', x) or c.fail('%d data' % len(x))
        near(c, qc(q + s), A + D, '+', tol); near(c, qc(q - s), A - D, '-', tol); near(c, qc(-s), -D, 'negation'); near(c, qc(q * s), mul(A, D), '*', tol); near(c, qc(2.0 * s), 2 * D, 'scaled'); near(c, qc(s / 2.0), D / 2, '/'); near(c, qc(s.__class__(s)), D, 'copy')
        y = Q(q); y *= s; near(c, qc(y), mul(A, D), '*=', tol); y = Q(s); y *= 2.0; near(c, qc(y), 2 * D, '*='); y = Q(s); y += q; near(c, qc(y), A + D, '+=', tol); y -= q; near(c, qc(y), D, '-=', tol)
        y = Q(s); y.conjugate(); near(c, qc(y), D * [1, -1, -1, -1], 'conjugate'); near(c, qc(rbbl.conjugate(s)), D * [1, -1, -1, -1], 'conjugate'); near(c, [s.norm(), s.normSquare(), rbbl.dot(s, q)], [np.sqrt(D @ D), D @ D, D @ A], 'norm', tol * 10); y = Q(s); y.normalise(); near(c, qc(y), D / np.sqrt(D @ D), 'normalise', tol); near(c, qc(rbbl.normalise(s)), D / np.sqrt(D @ D), 'normalise', tol); near(c, qc(s), D, 'unchanged')
        y = Q(-s); y.normalise(adjustSign=True); near(c, qc(y), D / np.sqrt(D @ D), 'normalise with sign', tol); raises(Q(0, 0, 0, 0).normalise) or c.fail('normalisation of zero')
        y = Q(); y.setYPR(yaw=a, pitch=e, roll=r); near(c, mat(y), M, 'setYPR', 10 * tol)
        if abs(e) < 1.5 and abs(r) < 1.5: near(c, [q.yaw, q.pitch, q.roll], [a, e, r], 'YPR', 100 * tol)
        n = v / np.sqrt(v @ v); K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]); R = np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K; y = Q.fromRotationVector(P(*v), a); near(c, mat(y), R, 'rotation vector', 10 * tol); y = Q(); y.setRotationVector(rotVector=P(*v), angle=a); near(c, mat(y), R, 'rotation vector', 10 * tol); f = y.rotationAngle
        if abs(f) > 0.1: near(c, mat(Q.fromRotationVector(y.rotationVector, f)), R, 'rotation vector read back', 100 * tol)
    if op == 2 and t == 0: # listener positions
        V = P(*v); ypr = [a, e, r]; k = c.choose(8, 'listener'); p = [lambda: L(*v, *ypr), lambda: L(x=v[0], y=v[1], z=v[2], yaw=a, pitch=e, roll=r), lambda: L(V, ypr), lambda: L(v.tolist(), ypr), lambda: L(V, q), lambda: L.fromQuaternion(V, q), lambda: L.fromQuaternion(position=v.tolist(), quaternion=qc(q)), lambda: L(L(V, q))][k]()
        def chk(p, v, M, what, tol=1e-4): near(c, [p.x, p.y, p.z], v, what + ': position', tol); near(c, p.position, v, what + ': position', tol); near(c, mat(p.orientationQuaternion), M, what + ': orientation', tol); near(c, mat(Q.fromYPR(p.orientationYPR)), M, what + ': YPR', 10 * tol); near(c, mat(Q.fromYPR(p.yaw, p.pitch, p.roll)), M, what + ': YPR', 10 * tol); near(c, mat(Q.fromRotationVector(p.orientationRotationVector, p.orientationRotationAngle)) if abs(np.trace(M) - 3) > 0.01 else M, M, what + ': rotation vector', 10 * tol)
        chk(p, v, M, 'created'); p.faceId = 3; p.timeStamp = 12345678901; p.numberOfListeners = 2
        for g in (L.RotationFormat.YPR, L.RotationFormat.RotationVector, L.RotationFormat.Quaternion):
            y = L.fromJson(p.writeJson(g, True)); chk(y, v, M, 'JSON', 1e-3); y = L(); y.parseJson(string=p.writeJson(rotationFormat=g)); chk(y, v, M, 'parseJson', 1e-3)
        y = L(p); (y.faceId, y.timeStamp, y.numberOfListeners) == (3, 12345678901, 2) or c.fail('attributes of a copy'); y.x, y.y, y.z = w; chk(y, w, M, 'setters'); chk(p, v, M, 'original'); y.position = V; chk(y, v, M, 'position'); y.orientationYPR = [0.5, 0.25, 0.125]; chk(y, v, rz(0.5) @ ry(0.25) @ rx(0.125), 'orientationYPR'); y.orientationQuaternion = q; chk(y, v, M, 'orientationQuaternion')
        s = Q.fromYPR(0.3, 0.2, 0.1); S = rz(0.3) @ ry(0.2) @ rx(0.1); y = L(p); y.translate(P(*w)); chk(y, v + w, M, 'translate'); y = L(p); y.translate(w.tolist()); chk(y, v + w, M, 'translate'); y = L(p); y.rotate(rotationQuaternion=s); chk(y, S @ v, S @ M, 'rotate'); y = L(p); y.rotateOrientation(s); chk(y, v, S @ M, 'rotateOrientation')
        y = L(p); y.transform(translationVector=P(*w), rotationQuaternion=s); chk(y, S @ v + w, S @ M, 'transform'); y = L(p); y.transform(s, P(*w)); chk(y, S @ v + w, S @ M, 'transform'); n = P(0, 0, 1); y = L(p); y.setOrientationRotationVector(rotationVector=n, rotationAngle=a); chk(y, v, rz(a), 'setOrientationRotationVector'); chk(L.fromRotationVector(V, n, a), v, rz(a), 'fromRotationVector'); chk(L.fromRotationVector(v.tolist(), [0, 0, 1], a), v, rz(a), 'fromRotationVector')
        c.compared(len(str(p)) > 0); chk(L([1, 2, 3]), [1, 2, 3], np.eye(3), 'default orientation'); chk(L(), [0] * 3, np.eye(3), 'default')
        for x in ([1, 2], [1, 2, 3, 4]): raises(L, x) or c.fail('%d coordinates' % len(x)); raises(p.translate, x) or c.fail('translation of %d elements' % len(x)); raises(L, [1, 2, 3], x) or c.fail('orientation of %d elements' % len(x))
    c.state('%d %g %g %g' % (t, a, e, r))

# Components which translate scene metadata into parameters, constructed from Python and driven through external parameter ports.
class Port: # a parameter port of a component connected to the outside
    def __init__(self, kind, name, par, proto, cfg): self.kind, self.name, self.par, self.proto, self.cfg = kind, name, par, proto, cfg
def external(ctx, top, comp, ports):
    pp = {p.name: p for p in comp.parameterPorts}
    if sorted(pp) != sorted(p.name for p in ports): return None, sorted(pp)
    top.keep = []
    for p in ports:
        q = (visr.ParameterInput if p.kind == 'in' else visr.ParameterOutput)(p.name, top, p.par.staticType, p.proto.staticType, p.cfg); top.keep.append(q)
        top.parameterConnection(*((q, pp[p.name]) if p.kind == 'in' else (pp[p.name], q)))
    flow = rrl.AudioSignalFlow(top)
    return flow, {p.name: (flow.parameterReceivePort if p.kind == 'in' else flow.parameterSendPort)(p.name) for p in ports}
def oscmessage(tag, v):
    import struct
    pad = lambda s: s + b'\0' * (4 - len(s) % 4)
    return pad(b'/value') + pad(b',' + tag.encode()) + {'i': lambda: struct.pack('>i', v), 'f': lambda: struct.pack('>f', v), 'd': lambda: struct.pack('>d', v), 'T': lambda: b'', 'F': lambda: b''}[tag]()
def controls(c, quick):
    n = 4; ctx = visr.SignalFlowContext(n, 48000); top = Comp(ctx, 'top', None); f32 = np.float32; O = objectmodel; EC = pml.EmptyParameterConfig(); DB, SD, MQ = pml.DoubleBufferingProtocol, pml.SharedDataProtocol, pml.MessageQueueProtocol
    K = ['Panning', 'Routing', 'GainEq', 'Diffusion', 'Compensation', 'Position', 'Scene', 'Osc', 'CAP']; kind = K[c.choose(len(K), 'component')]
    nl = [3, 4][c.choose(2, 'loudspeakers')]; az = [360.0 * k / nl for k in range(nl)]; ch = [(k * 2 + 1) % nl if nl % 2 else nl - 1 - k for k in range(nl)] # zero-offset output of loudspeaker k
    la = panning.LoudspeakerArray(); la.loadXmlString('<panningConfiguration dimension="2" infinite="false">' + ''.join('<loudspeaker id="S%d" channel="%d"><polar az="%g" r="%g"/></loudspeaker>' % (k, ch[k] + 1, az[k], 2.0) for k in range(nl)) + ''.join('<triplet l1="S%d" l2="S%d"/>' % (k, (k + 1) % nl) for k in range(nl)) + '</panningConfiguration>')
    row = {k: sorted(ch).index(ch[k]) for k in range(nl)}; at = lambda k, r=2.0: (r * np.cos(np.radians(az[k])), r * np.sin(np.radians(az[k])))
    nobj = [2, 3][c.choose(2, 'objects')]; blocks = 2 if quick else 3; MC = pml.MatrixParameterConfig; OV, MP, VP = pml.ObjectVector, pml.MatrixParameterFloat, pml.VectorParameterFloat
    if kind == 'Panning':
        M, N = rcl.PanningCalculator.PanningMode, rcl.PanningCalculator.Normalisation; mode = c.choose(7, 'mode'); adaptive = c.flag('adaptive') # 1..7 as combinations of LF=1, HF=2, diffuse=4
        mode += 1; parts = [M.LF, M.HF, M.Diffuse]; want = [parts[b] for b in range(3) if mode >> b & 1]; m = want[0]
        for w in want[1:]: m = m | w
        c.compared()
        if mode == 7 and m != M.All or mode == 3 and m != M.Dualband: c.fail('combination of panning modes: %s' % m)
        form = c.choose(3, 'form'); nrm = [N.Amplitude, N.Energy]
        if form == 0 and mode == 3: comp = rcl.PanningCalculator(ctx, 'c', top, nobj, la, adaptive, True)
        elif form == 0 and mode == 1: comp = rcl.PanningCalculator(ctx, 'c', top, numberOfObjects=nobj, arrayConfig=la, adaptiveListener=adaptive, separateLowpassPanning=False)
        elif form == 0: comp = rcl.PanningCalculator(ctx, 'c', top, nobj, la, adaptive, m)
        else: comp = rcl.PanningCalculator(ctx, 'c', top, numberOfObjects=nobj, arrayConfig=la, adaptiveListener=adaptive, panningMode=m, lfNormalisation=nrm[form - 1], hfNormalisation=nrm[2 - form], diffuseNormalisation=nrm[2 - form])
        outs = [('vbapGains', 'vbipGains', 'diffuseGains')[b] for b in range(3) if mode >> b & 1]
        ports = [Port('in', 'objectVectorInput', OV, DB, EC)] + ([Port('in', 'listenerPosition', pml.ListenerPosition, DB, EC)] if adaptive else []) + [Port('out', x, MP, SD, MC(nl, nobj)) for x in outs]
    elif kind == 'CAP':
        PM = rcl.CAPGainCalculator.PanningMode; k = c.choose(3, 'form'); comp = [lambda: rcl.CAPGainCalculator(ctx, 'c', top, nobj, la), lambda: rcl.CAPGainCalculator(ctx, 'c', top, numberOfObjects=nobj, arrayConfig=la, panningMode=PM.HF, hfGainOutput=True), lambda: rcl.CAPGainCalculator(ctx, 'c', top, nobj, la, PM.LF, True)][k]()
        ports = [Port('in', 'objectVectorInput', OV, DB, EC), Port('in', 'listenerPosition', pml.ListenerPosition, DB, EC), Port('out', 'gainOutput', MP, SD, MC(nl, nobj))] + ([Port('out', 'hfGainOutput', MP, SD, MC(nl, nobj))] if k else [])
    elif kind == 'Routing':
        comp = rcl.ChannelObjectRoutingCalculator(ctx, 'c', top, numberOfObjectChannels=nobj, arrayConfig=la); ports = [Port('in', 'objectIn', OV, DB, EC), Port('out', 'routingOut', pml.SignalRoutingParameter, DB, EC)]
    elif kind == 'GainEq':
        comp = rcl.ObjectGainEqCalculator(ctx, 'c', top, numberOfObjectChannels=nobj, numberOfBiquadSections=2); ports = [Port('in', 'objectIn', OV, DB, EC), Port('out', 'gainOut', VP, DB, pml.VectorParameterConfig(nobj)), Port('out', 'eqOut', pml.BiquadCoefficientMatrixParameterFloat, DB, MC(nobj, 2))]
    elif kind == 'Diffusion':
        comp = rcl.DiffusionGainCalculator(ctx, 'c', top, numberOfObjectChannels=nobj); ports = [Port('in', 'objectInput', OV, DB, EC), Port('out', 'gainOutput', MP, SD, MC(1, nobj))]
    elif kind == 'Compensation':
        comp = rcl.ListenerCompensation(ctx, 'c', top, arrayConfiguration=la); ports = [Port('in', 'positionInput', pml.ListenerPosition, DB, EC)] + [Port('out', x, VP, DB, pml.VectorParameterConfig(nl)) for x in ('gainOutput', 'delayOutput')]
    elif kind == 'Position':
        off = pml.Position3D(0.5, -1.0, 2.0) if hasattr(pml, 'Position3D') else rbbl.Position3D(0.5, -1.0, 2.0); a = np.pi / 2; k = c.choose(5, 'form'); q = rbbl.Quaternion.fromYPR(a, 0, 0)
        comp = [lambda: rcl.PositionDecoder(ctx, 'c', top), lambda: rcl.PositionDecoder(ctx, 'c', top, off), lambda: rcl.PositionDecoder(ctx, 'c', top, positionOffset=off, orientation=[a, 0.0, 0.0]), lambda: rcl.PositionDecoder(ctx, 'c', top, off, q), lambda: rcl.PositionDecoder(ctx, 'c', top, orientation=q)][k]()
        ports = [Port('in', 'messageInput', pml.StringParameter, MQ, EC), Port('out', 'positionOutput', pml.ListenerPosition, DB, EC)]
    elif kind == 'Scene':
        comp = [rcl.SceneDecoder, rcl.SceneEncoder][c.choose(2, 'direction')](ctx, 'c', top); dec = isinstance(comp, rcl.SceneDecoder)
        ports = [Port('in', 'datagramInput', pml.StringParameter, MQ, EC), Port('out', 'objectVectorOutput', OV, DB, EC)] if dec else [Port('in', 'objectInput', OV, SD, EC), Port('out', 'messageOutput', pml.StringParameter, MQ, EC)]
    elif kind == 'Osc':
        T = [('bool', pml.Boolean), ('int', pml.Integer), ('uint', pml.UnsignedInteger), ('float', pml.Float), ('double', pml.Double)]; t, par = T[c.choose(5, 'type')]; comp = rcl.ScalarOscDecoder(ctx, 'c', top); comp.setup(dataType=t)
        c.compared(); raises(rcl.ScalarOscDecoder(ctx, 'd', None).setup, 'text') or c.fail('unknown data type accepted')
        ports = [Port('in', 'datagramInput', pml.StringParameter, MQ, EC), Port('out', 'dataOut', par, MQ, EC)]
    flow, P = external(ctx, top, comp, ports); c.compared()
    if flow is None: c.fail('parameter ports %s' % P)
    run = lambda: flow.process(np.zeros((0, n), f32)); state = {}
    for b in range(blocks):
        send = c.choose(4, 'send') # 0: nothing
        if kind in ('Panning', 'CAP', 'Routing', 'GainEq', 'Diffusion'):
            inp = P[ports[0].name]; state.setdefault('l', np.zeros(2))
            if send:
                if kind == 'Panning' and adaptive: state['l'] = np.array([0.25 * b, -0.5 + 0.25 * send]) if send < 3 else np.zeros(2); P['listenerPosition'].data().position = rbbl.Position3D(*state['l'], 0); P['listenerPosition'].swapBuffers()
                v = []
                for j in range(nobj):
                    s = (j + send + b) % nl
                    if j == send - 1 and nobj == 3: continue # a channel without an object
                    if kind in ('Routing', ): o = O.ChannelObject(10 + j); o.resetNumberOfChannels(1); o.outputChannels = [['S%d' % s]]
                    elif kind == 'Diffusion' and (j + send) % 3 == 0: o = O.DiffuseSource(10 + j)
                    elif kind == 'Diffusion' and (j + send) % 3 == 1: o = O.PointSourceWithDiffuseness(10 + j); o.diffuseness = 0.25 * (j + 1)
                    else:
                        o = O.PointSource(10 + j); p = np.array(at(s)) if send < 3 else np.array([np.cos(np.pi * (2 * s + 1) / nl), np.sin(np.pi * (2 * s + 1) / nl)]); q = state['l']; o.x, o.y = q + (p - q) * 0.5; o.z = 0.0
                    o.resetNumberOfChannels(1); o.channels = [nobj - 1 - j]; o.level = [0.5, 1.0, 0.25][(j + send) % 3]
                    if kind == 'Routing': o.outputChannels = [['S%d' % s]]
                    v.append((o, s))
                inp.data().set([o for o, _ in v]); inp.swapBuffers(); state['v'] = v; state['mid'] = send == 3
            run(); v = state.get('v', [])
            if kind in ('Panning', 'CAP'):
                if 'v' in state or kind == 'CAP':
                    for p in ports:
                        if p.kind == 'in': continue
                        g = np.array(P[p.name].data()); c.compared(); g.shape == (nl, nobj) or c.fail('gain matrix of size %s' % (g.shape,))
                        E = np.zeros((nl, nobj))
                        for o, s in v:
                            if p.name == 'diffuseGains': continue
                            if not state['mid']: E[row[s], o.channels[0]] = 1; continue
                            amp = kind == 'Panning' and {'vbapGains': mode & 2 if form == 0 else form == 1, 'vbipGains': form == 2}[p.name]
                            for e in (s, (s + 1) % nl): E[row[e], o.channels[0]] = 0.5 if amp else 0.5 ** 0.5
                        if kind == 'Panning': near(c, g, E, p.name, 2e-3)
                        else: [near(c, g[:, j], np.zeros(nl), 'unused channel') for j in range(nobj) if all(j not in o.channels for o, s in v)]; np.isfinite(g).all() or c.fail('gains')
            elif kind == 'Diffusion':
                E = np.zeros((1, nobj))
                for o, s in v: E[0, o.channels[0]] = 1 if isinstance(o, O.DiffuseSource) else o.diffuseness if isinstance(o, O.PointSourceWithDiffuseness) else 0
                near(c, np.array(P['gainOutput'].data()), E, 'diffuse gains')
            else:
                for p in ports[1:]:
                    c.compared(2); P[p.name].changed() == bool(send) or c.fail('%s changed' % p.name)
                    if kind == 'Routing': sorted((e.input, e.output) for e in P[p.name].data()) == sorted((o.channels[0], row[s]) for o, s in v) or c.fail('routing %s' % [(e.input, e.output) for e in P[p.name].data()])
                    elif p.name == 'gainOut':
                        E = np.zeros(nobj)
                        for o, s in v: E[o.channels[0]] = o.level
                        if 'v' in state: near(c, np.array(P[p.name].data()), E, 'gains')
                    else:
                        if (P[p.name].data().numberOfFilters, P[p.name].data().numberOfSections) != (nobj, 2): c.fail('size of the equaliser matrix')
                    P[p.name].resetChanged()
        elif kind == 'Compensation':
            if send: state['p'] = [0, 0.5 * send - 1.5, 0.25][:2][::-1] + [0.25]; P['positionInput'].data().position = rbbl.Position3D(*state['p']); P['positionInput'].swapBuffers()
            run(); c.compared(2)
            for p in ports[1:]:
                P[p.name].changed() == bool(send) or c.fail('%s changed' % p.name); P[p.name].resetChanged()
                if 'p' in state:
                    r = np.zeros(nl)
                    for k in range(nl): r[row[k]] = np.linalg.norm(np.array([*at(k), 0.0]) - state['p'])
                    near(c, np.array(P[p.name].data()), r / r.max() if p.name == 'gainOutput' else (r.max() - r) / 343.0, p.name, 2e-4)
        elif kind == 'Position':
            for j in range(send): m = pml.ListenerPosition(1.0 + j, 2.0 + b, 3.0); m.faceId = 1; m.timeStamp = 100 * (b + 1) + j; P['messageInput'].enqueue(pml.StringParameter(m.writeJson())); state['p'] = [1.0 + j, 2.0 + b, 3.0]
            run(); out = P['positionOutput']; c.compared()
            if out.changed() != bool(send): c.fail('position changed')
            out.resetChanged()
            if 'p' in state:
                d = out.data(); x = np.array(state['p']); turn = k in (2, 3, 4)
                if turn: x = np.array([-x[1], x[0], x[2]])
                if k in (1, 2, 3): x = x + [0.5, -1.0, 2.0]
                near(c, [d.x, d.y, d.z], x, 'position', 1e-5); near(c, d.yaw, a if turn else 0, 'yaw', 1e-5)
        elif kind == 'Scene':
            if dec:
                for j in range(send): o = O.PointSource(j); o.x = 0.5 * (b + 1); o.resetNumberOfChannels(1); o.channels = [j]; o.level = 0.25 * (j + 1); w = O.ObjectVector([o]); P['datagramInput'].enqueue(pml.StringParameter(w.writeJson())); state[j] = 0.5 * (b + 1)
                run(); got = {o.objectId: (o.x, o.level, list(o.channels)) for o in P['objectVectorOutput'].data()}; c.compared(2)
                got == {j: (x, 0.25 * (j + 1), [j]) for j, x in state.items()} or c.fail('scene %s' % got)
                P['objectVectorOutput'].changed() == bool(send) or c.fail('scene changed'); P['objectVectorOutput'].resetChanged()
            else:
                if send: v = []; [v.append(O.PlaneWave(j)) for j in range(send)]; [(o.resetNumberOfChannels(1), setattr(o, 'channels', [o.objectId]), setattr(o, 'azimuth', 30.0)) for o in v]; P['objectInput'].data().set(v)
                run(); q = P['messageOutput']; c.compared(2)
                if q.size() != 1: c.fail('%d messages encoded' % q.size())
                w = O.ObjectVector(); w.fillFromJson(q.front().str); q.pop(); state['n'] = send or state.get('n', 0)
                if sorted((o.objectId, list(o.channels)) for o in w) != [(j, [j]) for j in range(state['n'])]: c.fail('scene encoded')
        elif kind == 'Osc':
            vals = [[], [1], [0, 3], [5, 1, 2]][send]; tags = {'bool': 'TF', 'int': 'i', 'uint': 'i', 'float': 'f', 'double': 'd'}[t]; E = []
            for x in vals:
                w = bool(x & 1) if t == 'bool' else -x if t == 'int' else x if t == 'uint' else x * 0.5; E.append(w)
                P['datagramInput'].enqueue(pml.StringParameter(oscmessage(('T' if w else 'F') if t == 'bool' else tags, w)))
                if x == 3: P['datagramInput'].enqueue(pml.StringParameter(oscmessage('i' if t in ('float', 'double', 'bool') else 'f', 7))) # of another type: ignored
            run(); q = P['dataOut']; got = []
            while not q.empty(): got.append(q.front().value); q.pop()
            c.compared(); got == E or c.fail('%s instead of %s' % (got, E))
    c.state('%s %d %d' % (kind, nl, nobj))
def scenarios(quick):
    S = {'flow': (lambda c: flows(c, quick, False), 3), 'flexible': (lambda c: flows(c, quick, True), 3)}
    for f in (ports, composites, parameters, containers, indexed, vectors, strided, iir, convolvers, objects, routings, biquads, rclcomponents, loudspeakers, panningmatrix, geometry, controls): S[f.__name__] = (lambda c, f=f: f(c, quick), 3)
    return S
