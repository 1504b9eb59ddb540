B='lib/python-bitcoinlib/bitcoin/'
PRE='''
import bitcoin, bitcoin.rpc, base64, tempfile, os, http.client
seen = []
class A:
    def read(self): return b'{"result": 5, "error": null, "id": 1}'
def request(self, how, path, data=None, headers={}): seen.append((self.host, self.port, base64.b64decode(headers['Authorization'][6:])))
http.client.HTTPConnection.request = request; http.client.HTTPConnection.getresponse = lambda self: A()
def call(text, **k):
    fd, f = tempfile.mkstemp(); os.write(fd, text.encode()); os.close(fd)
    try: bitcoin.rpc.Proxy(btc_conf_file=f, **k).getblockcount()
    finally: os.unlink(f)
    return seen[-1]
'''
SEEDS = {
'rpc-conf-last-equals': dict(property='C32', edits=[(B+'rpc.py', "k, v = line.split('=', 1)", "k, v = line.rsplit('=', 1)")],
  needs='a password holding an equals sign', breaks='the password is not found or cut off', demo=PRE+'''
assert call('rpcuser=u\\nrpcpassword=abc=d\\n')[2] == b'u:abc=d'
'''),
'rpc-conf-default-port': dict(property='C32', edits=[(B+'rpc.py', "if service_port is None:", "if not service_port or service_port == 8332:")],
  needs='port 8332 asked for while testnet is selected', breaks='the call goes to the port of testnet', demo=PRE+'''
bitcoin.SelectParams('testnet')
assert call('rpcuser=u\\nrpcpassword=p\\n')[1] == 18332
assert call('rpcuser=u\\nrpcpassword=p\\n', service_port=8332)[1] == 8332
'''),
'rpc-url-lower-host': dict(property='C32', edits=[(B+'rpc.py', "        self.__id_count += 1\n", "        self.__id_count = (self.__id_count + 1) % 2\n")],
  needs='a third call over one proxy', breaks='its request carries the number of the first', demo='''
import bitcoin.rpc, json
got = []
class Conn:
    def request(self, how, path, data, headers): got.append(json.loads(data)['id'])
    def getresponse(self): return self
    def read(self): return b'{"result": 5, "error": null, "id": 1}'
p = bitcoin.rpc.Proxy('http://a:b@localhost:1', _connection=Conn())
for k in range(3): p.getblockcount()
assert len(set(got)) == 3
'''),
}
SEEDS['rpc-id-repeats'] = SEEDS.pop('rpc-url-lower-host')
