"""C33: the single-use-seal tool"""
import argparse, builtins, contextlib, glob, io, os, runpy, shutil, sys, tempfile
from engine.api import *
from contracts.sealgen import *
from engine.symtools import TXBYTES
MT = 'proofchains.uniquebits.singleuseseal'
RPC = 'bitcoin.rpc'
METHODS = ('op_return', 'p2sh', 'p2pkh')

class Refused(Exception): pass
class Silent:
    def __init__(self, *a, **k): pass
class Parser:
    def error(self, *a): raise Refused()
    def exit(self, *a, **k): raise Refused()
class File:
    """a stand-in of an open file"""
    def __init__(self, name, data=None): self.name = name; self.data = data; self.written = []; self.mode = None
    def read(self, *n):
        r, self.data = self.data, self.data[:0]
        return r
    def write(self, b): self.written.append(b)
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Os:
    """what the tool uses of os"""
    def __init__(self, c): self.c = c; self.drawn = []
    def urandom(self, n):
        self.drawn.append(self.c.bytes('random%d' % len(self.drawn), n=n)); return self.drawn[-1]
    def __getattr__(self, name): return os.__dict__[name]
class Args:
    def __init__(self, **k):
        self.parser = Parser(); self.dryrun = False; self.testnet = False; self.verbosity = 0; self.verbose = 0; self.quiet = 0
        for a, b in k.items(): setattr(self, a, b)

def tool(c):
    """the tool's functions: its script, the command line naming no command"""
    rpc = c.mod(RPC); P0 = argparse.ArgumentParser; old = rpc.Proxy, P0.parse_args
    rpc.Proxy = Silent; P0.parse_args = lambda self, *a, **k: argparse.Namespace(verbose=0, quiet=0, testnet=False, dryrun=False, cmd_func=lambda a: None)
    try: m = c.mod('sus-tool')
    except SystemExit: c.unsupported('loading the tool')
    finally: rpc.Proxy, P0.parse_args = old
    return m
def command(c, m, cmd, args):
    """(what was printed, files opened, os, error)"""
    if cmd not in m.__dict__: c.unsupported('no ' + cmd)
    out, files, env = [], [], Os(c)
    def opened(name, mode='r', *a, **k):
        f = File(name); f.mode = mode; files.append(f); return f
    rpc = c.mod(RPC); proxy = rpc.Proxy; rpc.Proxy = lambda *a, **k: args.proxy
    m.open = opened; m.print = lambda *a, **k: out.append(a); m.os = env
    try: r, err = c.catch((Exception, SystemExit), m.__dict__[cmd], args)
    finally:
        del m.open; del m.print; m.os = os; rpc.Proxy = proxy
    if isinstance(err, AttributeError) and isinstance(err.obj, (Args, File, Os, Parser, Silent)) or isinstance(err, KeyError): c.unsupported('other names of the arguments')
    return out, files, env, err

@contract('C33', 'making a seal', samples=300)
def making(c):
    m = tool(c); su = c.mod(SU)
    o = arb_outpoint(c); f = File('f')
    out, files, env, err = command(c, m, 'cmd_mkseal', Args(outpoint=o, seal_fd=f))
    c.check('made', err is None)
    if len(env.drawn) != 1: c.unsupported('another source of randomness')
    c.check('one write, no other file', len(f.written) == 1 and not files)
    s = c.returns('decodes', su.BitcoinSingleUseSeal.deserialize, f.written[0])
    c.eq('outpoint', s.outpoint.hash, o.hash); c.eq('index', s.outpoint.n, o.n)
    c.eq('fresh nonce', s.nonce, env.drawn[0])

@contract('C33', 'closing transaction', parts=METHODS, samples=300, models=TXBYTES)
def closing(c):
    """printed: the hexadecimal encoding of the template, in the order of the files"""
    m = tool(c); su = c.mod(SU)
    h = c.bytes('h', n=32); n = c.choice('seals', (1, 2, 3)) if c.symbolic else c.int('seals', 1, 4)
    seals = [some_seal(c, 's%d' % k) for k in range(n)]
    if not c.symbolic:
        a, b = c.int('copy of', 0, n - 1), c.int('copy at', 0, 4 * n)
        if b < n: seals[b] = seals[a] if c.choice('whole', (0, 1)) else su.BitcoinSingleUseSeal(outpoint=seals[a].outpoint, nonce=seals[b].nonce)
    fds = [File('f%d' % k, c.raw(seals[k].serialize())) for k in range(n)]
    out, files, env, err = command(c, m, 'cmd_mkclosetx', Args(digest=h, seal_fds=fds, meth=c.part))
    same = c.either(*[c.both(a.outpoint.hash == b.outpoint.hash, a.outpoint.n == b.outpoint.n, a.nonce == b.nonce) for x, a in enumerate(seals) for b in seals[:x]]) if n > 1 else False
    c.check('refused exactly when a seal is given twice', c.neg(same) if err is None else same)
    if err is not None:
        c.check('nothing printed', not out); return
    if not out: c.unsupported('another way of printing')
    c.check('one text printed, no file written', len(out) == 1 and len(out[0]) == 1 and not files and not any(f.written for f in fds))
    script = forms(c, h)[METHODS.index(c.part)]
    ins = c.native(b'')
    for s in seals: ins = ins + c.raw(s.outpoint.hash) + c.le(s.outpoint.n, 4) + c.native(b'\0\xff\xff\xff\xff')
    want = c.native(b'\1\0\0\0') + c.compact(n) + ins + c.native(b'\1') + c.le(0 if c.part == 'op_return' else 600, 8) + c.compact(len(script)) + script + c.native(b'\0\0\0\0')
    c.check('printed', out[0][0] == c.hex(want))

@loop('cmd_mkwitness#1')
class Search(LoopSpec):
    """no input looked at spends the seal"""
    def enter(self, L): L.g.p, L.g.differs = L.env('searches').pop(0)
    def inv(self, L): return [('not found yet', L.implies(L.g.p < L.k, L.g.differs))]

def spending(c, seals):
    """a transaction of which (often) some inputs spend the seals"""
    return some_tx(c, 'tx', seals)

@contract('C33', 'witnessing', cuts=['cmd_mkwitness#1'], samples=500, models=TXBYTES + VARUINT)
def witnessing(c):
    m = tool(c); su = c.mod(SU); b = c.mod(PB)
    n = c.choice('seals', (1, 2, 3)) if c.symbolic else c.int('seals', 1, 3)
    seals = [some_seal(c, 's%d' % k) for k in range(n)]
    tx = some_tx(c, 'tx', seals)
    c.assume(c.both(len(tx.vin) < 2**31, len(tx.vout) < 2**31))
    fds = [File('f%d' % k, c.raw(seals[k].serialize())) for k in range(n)]
    unspent = []
    if c.symbolic:
        p = c.int('p', 0)
        if c.split(p < len(tx.vin)) == 0:
            q = tx.vin[p].prevout
            unspent = [c.neg(c.both(q.hash == s.outpoint.hash, q.n == s.outpoint.n)) for s in seals]
        else: unspent = [True for s in seals]
        c.ghost(searches=[(p, x) for x in unspent])
    else: unspent = [all(i.prevout != s.outpoint for i in tx.vin) for s in seals]
    by_id = c.choice('how', (False, True)); asked = []
    class Node:
        def getrawtransaction(self, txid, *a, **k): asked.append(txid); return tx
    class Nothing:
        pass
    txid = c.bytes('txid', n=32)
    args = Args(seal_fds=fds, tx=None, txid=txid, proxy=Node()) if by_id else Args(seal_fds=fds, tx=c.raw(tx.serialize()), txid=None, proxy=Nothing())
    out, files, env, err = command(c, m, 'cmd_mkwitness', args)
    if by_id: c.check('the transaction asked for', len(asked) == 1); c.eq('its id', asked[0], txid)
    done = len(files)
    if err is None and not done: c.unsupported('another way of writing files')
    c.check('one file per seal witnessed', done == n if err is None else done < n)
    if err is not None: c.check('refused for a seal not spent', unspent[done])
    for k in range(done):
        f = files[k]
        c.eq('name', f.name, 'f%d.witness' % k); c.check('a new file, of bytes', 'x' in f.mode and 'b' in f.mode)
        c.check('written once', len(f.written) == 1)
        w = c.returns('decodes', su.BitcoinSealWitness.deserialize, f.written[0])
        c.eq('seal outpoint', w.seal.outpoint.hash, seals[k].outpoint.hash); c.eq('seal index', w.seal.outpoint.n, seals[k].outpoint.n); c.eq('seal nonce', w.seal.nonce, seals[k].nonce)
        i = w.txinproof.i
        c.check('an input of the transaction', c.lt(i, len(tx.vin)))
        q = tx.vin[i].prevout
        c.check('spending the seal', c.both(q.hash == seals[k].outpoint.hash, q.n == seals[k].outpoint.n))
        c.check('the first output', w.txoutproof.i == 0)
        c.eq('transaction of the input', w.txinproof.txproof.txhash, c.hash256(raw_tx(c, tx)))
        c.eq('transaction of the output', w.txoutproof.txproof.txhash, c.hash256(raw_tx(c, tx)))

GIVEN = ('nothing', 'digest', 'file', 'id', 'digest file', 'digest id')
@contract('C33', 'verifying', parts=GIVEN, samples=1500, models=TXBYTES + VARUINT)
def verifying(c):
    """accepted exactly when verify, verify_hash of the digest given and the comparison with the seal given all are"""
    m = tool(c); su = c.mod(SU); b = c.mod(PB)
    seal = some_seal(c, 'seal'); tx = some_tx(c, 'tx', [seal])
    other = tx if c.choice('same', (0, 1)) else some_tx(c, 'other', [seal])
    h = c.bytes('h', n=32)
    if c.symbolic: i = c.int('i', 0, U32); j = c.int('j', 0, U32)
    else:
        i = c.int('i', 0, 4); k = c.int('at', 0, 3)
        s = c.choice('form', forms(c, h) + [b'\x6a' + h]); outs = list(other.vout); outs[k:k + 1] = [c.mod(B).CTxOut(5, c.mod(B).script.CScript(s))]
        ins = list(other.vin); ins[i:i + 1] = [c.mod(B).CTxIn(seal.outpoint)] if c.choice('spend', (0, 1, 1)) else []
        new = c.mod(B).CTransaction(ins, outs, other.nLockTime, other.nVersion)
        tx = new if other is tx else tx; other = new
        i = c.int('i2', 0, 4) if c.choice('other i', (0, 0, 1)) else min(i, len(tx.vin) - 1); j = c.int('j', 0, 4) if c.choice('other j', (0, 0, 1)) else outs.index(outs[min(k, len(outs) - 1)])
    w = su.BitcoinSealWitness(seal=seal, txinproof=b.TxInProof(i=max(i, 0) if not c.symbolic else i, txproof=b.TxProof(tx=tx)), txoutproof=b.TxOutProof(i=j, txproof=b.TxProof(tx=other)))
    data = w.serialize()
    given = c.part
    digest = (h if c.symbolic or c.choice('right digest', (1, 1, 0)) else c.bytes('wrong', n=32)) if 'digest' in given else None
    claimed = seal if c.choice('right seal', (True, False)) else some_seal(c, 'claimed')
    fd = File('s', c.raw(claimed.serialize())) if 'file' in given else None
    claim = (c.raw(claimed.hash) if c.choice('a hash', (True, False)) else c.bytes('id', n=32)) if 'id' in given else None
    out, files, env, err = command(c, m, 'cmd_verifywitness', Args(witness_fd=File('w', c.raw(data)), digest=digest, seal_file=fd, seal_id=claim, local=False))
    ok = [c.catch(Exception, w.verify)[1] is None]
    if digest is not None: ok.append(c.catch(Exception, w.verify_hash, digest)[1] is None)
    if fd is not None: ok.append(c.both(claimed.outpoint.hash == seal.outpoint.hash, claimed.outpoint.n == seal.outpoint.n, claimed.nonce == seal.nonce))
    if claim is not None: ok.append(c.raw(seal.hash) == claim)
    ok = c.both(*ok)
    c.check('accepted exactly when everything given matches', ok if err is None else c.neg(ok))
    c.check('writes nothing', not files)

def outpoint_text(c, o):
    return ''.join('%02x' % x for x in bytes(o.hash)[::-1]) + ':' + str(o.n)

@contract('C33', 'reading the arguments', samples=500, sym=False, bounded='sampled texts')
def arguments(c):
    m = tool(c); core = c.mod(B)
    if not all(x in m.__dict__ for x in ('ParseCOutPointArg', 'ParseDigestArg')): c.unsupported('no such class')
    h = c.bytes('h', n=32); n = c.int('n', 0, U32); txt = h[::-1].hex() + ':' + str(n)
    p = m.ParseCOutPointArg.str_to_COutPoint
    o = c.returns('outpoint', p, txt, Parser())
    c.eq('hash', bytes(o.hash), h); c.eq('index', o.n, n)
    for bad in (h.hex(), h.hex() + ':', ':0', h.hex() + ':0:1', h.hex()[2:] + ':0', h.hex() + '00:0', h.hex()[1:] + ':0', h.hex() + ':-1', h.hex() + ':%d' % 2**32, h.hex() + ':x', h.hex() + ':0x%x' % n, h.hex() + ':0b1', h.hex() + ':1.0', h.hex() + ':1e1', h.hex() + ':a', 'zz' + h.hex()[2:] + ':0'):
        c.check('refused: ' + bad, c.catch((Exception, SystemExit), p, bad, Parser())[1] is not None)
    d = m.ParseDigestArg.str_to_digest
    c.eq('digest', c.returns('digest', d, h.hex(), Parser()), h)
    for bad in ('', h.hex()[2:], h.hex() + '00', h.hex()[1:], 'zz' + h.hex()[2:]):
        c.check('refused digest: ' + bad, c.catch((Exception, SystemExit), d, bad, Parser())[1] is not None)

def run(c, d, argv, tx=None):
    """the script itself, in the scratch directory; (exit status, lines printed)"""
    rpc = c.mod(RPC); old = rpc.Proxy, sys.argv, os.getcwd(), sys.path[:]
    path = os.path.join(os.path.dirname(os.path.abspath(c.mod('proofchains').__path__[0])), 'sus-tool.py')
    class Node:
        def __init__(self, *a, **k): pass
        def getrawtransaction(self, txid, *a, **k):
            if tx is None or bytes(txid) != bytes(tx.GetHash()): raise IndexError('no such transaction')
            return tx
    opened, real = [], builtins.open
    def keep(*a, **k):
        opened.append(real(*a, **k)); return opened[-1]
    builtins.open = keep
    out = io.StringIO(); rpc.Proxy = Node; sys.argv = ['sus-tool.py'] + argv; os.chdir(d); status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()): runpy.run_path(path, run_name='__main__')
    except SystemExit as e: status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception as e: status = 1
    finally:
        rpc.Proxy, sys.argv, cwd, sys.path[:] = old
        os.chdir(cwd); c.mod('bitcoin').SelectParams('mainnet')
        builtins.open = real
        for f in opened: f.close()
    return status, out.getvalue().splitlines()
def content(d, f):
    with open(os.path.join(d, f), 'rb') as fd: return fd.read()

def shown(out): return [[z.strip() for z in str(x).split(':', 1)] for a in out for x in ' '.join(map(str, a)).splitlines()]
@contract('C33', 'showing seals and witnesses', samples=600, sym=False, bounded='sampled seals and witnesses')
def showing(c):
    m = tool(c); su = c.mod(SU); b = c.mod(PB)
    seal = some_seal(c, 'seal'); tx = some_tx(c, 'tx', [seal]); txt = outpoint_text(c, seal.outpoint)
    i = c.int('i', 0, len(tx.vin) - 1); j = c.int('j', 0, 3)
    w = su.BitcoinSealWitness(seal=seal, txinproof=b.TxInProof(i=i, txproof=b.TxProof(tx=tx)), txoutproof=b.TxOutProof(i=j, txproof=b.TxProof(tx=tx)))
    out, files, env, err = command(c, m, 'cmd_sealinfo', Args(seal_fd=File('s', seal.serialize())))
    if not out and err is None: c.unsupported('another way of printing')
    c.check('sealinfo', err is None and not files)
    c.eq('of the seal', shown(out), [['Hash', bytes(seal.hash).hex()], ['OutPoint', txt]])
    out, files, env, err = command(c, m, 'cmd_witnessinfo', Args(witness_fd=File('w', w.serialize())))
    c.check('witnessinfo', err is None and not files)
    c.eq('of the witness', shown(out), [['Hash', bytes(w.hash).hex()], ['Txid', c.hash256(enc_tx(c, tx))[::-1].hex()], ['Seal Hash', bytes(seal.hash).hex()], ['Seal OutPoint', txt]])

@contract('C33', 'command line', samples=25, sym=False, bounded='sampled seals, digests and transactions', weight=3)
def command_line(c):
    """from making the seals to verifying their witnesses"""
    core = c.mod(B); su = c.mod(SU)
    h = c.bytes('h', n=32); g = bytes([h[0] ^ 1]) + h[1:]
    n = c.int('seals', 1, 3); outs = [arb_outpoint(c.sub('o%d' % k)) for k in range(n)]
    meth = c.choice('meth', METHODS); net = c.choice('net', ([], ['-t'], ['-v'], ['-vv', '-q'], ['-q']))
    d = tempfile.mkdtemp(prefix='sus-')
    try:
        names = ['f%d' % k for k in range(n)]
        for f, o in zip(names, outs):
            c.eq('mkseal', run(c, d, net + ['mkseal', outpoint_text(c, o), f]), (0, []))
        first = [content(d, f) for f in names]
        c.check('a seal is not replaced', run(c, d, ['mkseal', outpoint_text(c, outs[0]), 'f0'])[0] != 0); c.eq('still there', content(d, 'f0'), first[0])
        for bad in ('00:1', outpoint_text(c, outs[0]) + ':1', 'x' * 64 + ':0'):
            c.check('bad outpoint', run(c, d, ['mkseal', bad, 'bad'])[0] != 0)
        run(c, d, ['mkseal', outpoint_text(c, outs[0]), 'again'])
        c.check('another seal of the outpoint', content(d, 'again') != first[0])
        seals = [su.BitcoinSingleUseSeal.deserialize(x) for x in first]
        for o, s in zip(outs, seals): c.check('its outpoint', bytes(s.outpoint.hash) == bytes(o.hash) and s.outpoint.n == o.n)
        c.check('nonces differ', len(set(bytes(s.nonce) for s in seals)) == n)
        st, lines = run(c, d, ['sealinfo', 'f0'])
        c.check('sealinfo', st == 0 and [x.split() for x in lines] == [['Hash:', bytes(seals[0].hash).hex()], ['OutPoint:', outpoint_text(c, outs[0])]])
        flag = {'op_return': c.choice('flag', ([], ['--op-return'])), 'p2sh': ['--p2sh'], 'p2pkh': ['--p2pkh']}[meth]
        st, lines = run(c, d, net + ['mkclosetx'] + flag + [h.hex()] + names)
        c.check('mkclosetx', st == 0 and len(lines) == 1)
        tx = core.CTransaction.deserialize(bytes.fromhex(lines[0]))
        c.check('spends the seals in order', [(bytes(i.prevout.hash), i.prevout.n) for i in tx.vin] == [(bytes(o.hash), o.n) for o in outs])
        c.check('commits', [bytes(o.scriptPubKey) for o in tx.vout] == [forms(c, h)[METHODS.index(meth)]])
        c.check('a seal twice', run(c, d, ['mkclosetx', h.hex(), 'f0', 'f0'])[0] != 0)
        for bad in ('', h.hex()[2:], h.hex() + '00', 'zz' + h.hex()[2:]): c.check('bad digest', run(c, d, ['mkclosetx', bad, 'f0'])[0] != 0)
        m = c.int('before', 0, 2); extra = [core.CTxIn(core.COutPoint(b'\x07' * 32, k)) for k in range(2)]
        tx = core.CTransaction(extra[:m] + [core.CTxIn(i.prevout, core.script.CScript(b'\x51'), i.nSequence) for i in tx.vin] + extra[m:], tx.vout, tx.nLockTime, tx.nVersion)
        how = ['--tx', tx.serialize().hex()] if c.choice('how', (0, 1)) else ['--txid', bytes(tx.GetHash())[::-1].hex()]
        gone = core.CTransaction(extra, tx.vout)
        c.check('not spent', run(c, d, ['mkwitness', 'f0', '--tx', gone.serialize().hex()])[0] != 0); c.check('no witness', not glob.glob(os.path.join(d, '*.witness')))
        c.eq('mkwitness', run(c, d, net + ['mkwitness'] + names + how, tx)[0], 0)
        c.eq('files', sorted(os.path.basename(x) for x in glob.glob(os.path.join(d, '*.witness'))), sorted(x + '.witness' for x in names))
        wit = [content(d, x + '.witness') for x in names]
        c.check('a witness is not replaced', run(c, d, ['mkwitness', 'f0'] + how, tx)[0] != 0); c.eq('witness still there', content(d, 'f0.witness'), wit[0])
        for k, x in enumerate(names):
            w = su.BitcoinSealWitness.deserialize(wit[k]); f = x + '.witness'
            c.check('of the seal', bytes(w.seal.hash) == bytes(seals[k].hash))
            ident = bytes(seals[k].hash).hex()
            for opts in ([], ['-d', h.hex()], ['--seal-file', x], ['--seal-id', ident], ['-d', h.hex(), '--seal-file', x, '-l']):
                c.eq('verifies %r' % opts, run(c, d, net + ['verifywitness', f] + opts), (0, []))
            other = bytes([seals[k].hash[0] ^ 1]) + bytes(seals[k].hash)[1:]
            for opts in (['-d', g.hex()], ['--seal-file', 'again'], ['--seal-id', other.hex()], ['-d', h.hex(), '--seal-file', 'again'], ['-d', g.hex(), '--seal-file', x], ['-d', g.hex(), '--seal-id', ident]):
                c.check('refused %r' % opts, run(c, d, ['verifywitness', f] + opts)[0] != 0)
            st, lines = run(c, d, ['witnessinfo', f])
            c.check('witnessinfo', st == 0 and [z.split(':', 1) for z in (y.replace('\t', '') for y in lines)] == [['Hash', bytes(w.hash).hex()], ['Txid', bytes(tx.GetHash())[::-1].hex()], ['Seal Hash', ident], ['Seal OutPoint', outpoint_text(c, outs[k])]])
        c.check('no command', run(c, d, [])[0] != 0)
    finally: shutil.rmtree(d)
