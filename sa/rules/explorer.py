"""P19: the explorer layer; P20: explorer answers are checked before they are believed."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .jsonfmt import TT, CT, FT, CR, PT, IO, TB, E20
from .table import table, find

EX = "tfchain.TFChainExplorerClient.TFChainExplorerClient"
HC = "tfchain.internal.HttpClient."
ER = "tfchain.errors."
CL = "tfchain.TFChainClient."
MOD = dict(modules=("tfchain.TFChainExplorerClient", "tfchain.internal.HttpClient"))
EXC = ("raises:ExplorerNoContent", "raises:ExplorerServerError", "raises:ExplorerServerPostError", "raises:ExplorerNotAvailable", "raises:TypeError")


def p19(ctx):
    A = dict(MOD, opaque_names=("getcode", "get", "post", "readline"), what=("value", "accept") + EXC)
    rows = [
        ("get", EX, "get", """
def f(self, endpoint):
    order = list(range(len(self._addresses)))
    random.shuffle(order)
    for i in order:
        try:
            a = self._addresses[i]
            if not isinstance(a, str):
                raise TypeError('')
            r = tfchain.TFChainExplorerClient.http.get(url=a + endpoint, headers={'User-Agent': 'Rivine-Agent'})
            if r.getcode() == 200:
                return r.readline()
            if r.getcode() == 204:
                raise tfchain.errors.ExplorerNoContent('', endpoint)
            raise tfchain.errors.ExplorerServerError('', endpoint)
        except tfchain.internal.HttpClient.HTTPError as e:
            if e.status_code == 400:
                m = e.msg
                if isinstance(m, (bytes, bytearray)):
                    m = m.decode('utf-8')
                if isinstance(m, str) and ('unrecognized hash' in m or 'not found' in m):
                    raise tfchain.errors.ExplorerNoContent('', endpoint)
            if e.status_code:
                raise tfchain.errors.ExplorerServerError('', endpoint)
            print('')
    raise tfchain.errors.ExplorerNotAvailable('', endpoint=endpoint, addresses=self._addresses)
""", "reading from an explorer", A),
        ("post", EX, "post", """
def f(self, endpoint, data):
    order = list(range(len(self._addresses)))
    random.shuffle(order)
    for i in order:
        try:
            a = self._addresses[i]
            if not isinstance(a, str):
                raise TypeError('')
            if isinstance(data, dict):
                data = tfchain.internal.jsutils.json_dumps(data)
            if isinstance(data, str):
                data = data.encode('utf-8')
            if not isinstance(data, bytes):
                raise TypeError('')
            r = tfchain.TFChainExplorerClient.http.post(url=a + endpoint, data=data, headers={'User-Agent': 'Rivine-Agent', 'content-type': 'application/json'})
            if r.getcode() == 200:
                return r.readline()
            raise tfchain.errors.ExplorerServerPostError('', endpoint, data=data)
        except tfchain.internal.HttpClient.HTTPError as e:
            if e.status_code:
                raise tfchain.errors.ExplorerServerPostError('', endpoint, data=data)
            print('')
    raise tfchain.errors.ExplorerNotAvailable('', endpoint=endpoint, addresses=self._addresses)
""", "writing to an explorer", A),
        ("init", EX, "__init__", """
def f(self, addresses):
    if not isinstance(addresses, list) or len(addresses) == 0:
        raise TypeError('')
    self._addresses = addresses
""", "explorer client", dict(MOD, what=("accept", "fields:_addresses", "raises:TypeError"))),
        ("addresses", EX, "addresses", "def f(self):\n    return self._addresses", "explorer addresses", MOD),
        ("http.get", HC + "HttpClient", "get", "def f(self, url, headers=None):\n    return Connection().get(url, headers=headers)", "HTTP request", dict(MOD, opaque_names=("_http_request",))),
        ("http.post", HC + "HttpClient", "post", "def f(self, url, data=None, headers=None):\n    return Connection().post(url, data=data, headers=headers)", "HTTP request",
         dict(MOD, opaque_names=("_http_request",))),
        ("conn.get", HC + "Connection", "get", """
def f(self, url, data=None, headers=None, **params):
    return self._http_request(url, headers=headers, method='GET', **params)
""", "HTTP request", dict(MOD, opaque_names=("_http_request",))),
        ("conn.post", HC + "Connection", "post", """
def f(self, url, data=None, headers=None, **params):
    if headers is None:
        headers = {'content-type': 'text/plain'}
    return self._http_request(url, data=data, headers=headers, method='POST', **params)
""", "HTTP request", dict(MOD, opaque_names=("_http_request",))),
        ("conn.request", HC + "Connection", "_http_request", """
def f(self, url, data=None, headers=None, method=None, **kwargs):
    url = self._updateUrlParams(url, **kwargs)
    data = data or kwargs.get('data', None)
    if data and isinstance(data, (dict, list)):
        data = urllib.parse.urlencode(data)
        data = data.encode('utf-8')
    q = urllib.request.Request(url, data=data)
    if headers:
        for k, v in list(headers.items()):
            q.add_header(k, v)
    if not method:
        method = 'POST' if data else 'GET'
    q.get_method = lambda: method
    try:
        r = urllib.request.urlopen(q)
    except Exception as e:
        raise HTTPError(e, url)
    if r.code not in {200, 201, 204}:
        raise Exception('')
    return r
""", "HTTP request", dict(MOD, opaque_names=("_updateUrlParams",), what=("value", "accept", "raises:HTTPError", "raises:Exception", "calls:add_header", "calls:urlopen", "stores:get_method"))),
        ("http.error", HC + "HTTPError", "__init__", """
def f(self, httperror, url):
    m = 'Could not open http connection to url %s' % url
    d = ''
    self.status_code = None
    if isinstance(httperror, urllib.error.HTTPError):
        m = d = httperror.read()
        self.status_code = httperror.code
    self.msg = m
    self.data = d
    self.httperror = httperror
""", "HTTP error", dict(MOD, what=("accept", "fields:msg,data,status_code,httperror"))),
        ("conn.params", HC + "Connection", "_updateUrlParams", """
def f(self, url, **kwargs):
    s, n, u, p, q, g = urllib.parse.urlparse(url)
    params = urllib.parse.parse_qs(q)
    for k, v in list(params.items()):
        params[k] = v.pop() if isinstance(v, list) else v
    for k, v in list(kwargs.items()):
        if v is not None:
            params[k] = v
    return urllib.parse.urlunparse((s, n, u, p, urllib.parse.urlencode(params), g))
""", "URL of a request", MOD),
        ("json.read", None, "tfchain.internal.jsutils.json_loads", """
def f(s):
    if isinstance(s, bytes):
        s = s.decode('utf-8')
    return json.loads(s)
""", "JSON of an answer", dict(modules=("tfchain.internal",))),
        ("json.write", None, "tfchain.internal.jsutils.json_dumps", """
def f(obj, sort_keys=False, indent=False, encoding='ascii'):
    return json.dumps(obj, ensure_ascii=False, sort_keys=sort_keys, indent=indent, cls=tfchain.internal.jsutils.Encoder.get(encoding=encoding))
""", "JSON of a request", dict(modules=("tfchain.internal.jsutils",), opaque=("tfchain.internal.jsutils.Encoder.get",))),
        ("json.bytes", "tfchain.internal.jsutils.BytesEncoder", "default", """
def f(self, obj):
    if isinstance(obj, bytes):
        return obj.decode(self.ENCODING)
    return json.JSONEncoder.default(self, obj)
""", "JSON of a request", dict(modules=("tfchain.internal.jsutils",))),
    ]
    for c, ps, chk in (
        ("ExplorerError", "message, endpoint", "    if not isinstance(endpoint, str):\n        raise TypeError('')\n"),
        ("ExplorerServerPostError", "message, endpoint, data", "    if not isinstance(endpoint, str):\n        raise TypeError('')\n"),
        ("ExplorerNotAvailable", "message, endpoint, addresses", "    if not isinstance(endpoint, str) or not isinstance(addresses, list):\n        raise TypeError('')\n"),
        ("ExplorerInvalidResponse", "message, endpoint, response", "    if not isinstance(endpoint, str) or not isinstance(response, dict):\n        raise TypeError('')\n"),
        ("CurrencyPrecisionOverflow", "value", ""), ("CurrencyNegativeValue", "value", ""),
        ("AtomicSwapInsufficientAmountError", "amount, minimum_miner_fee", ""), ("AtomicSwapContractError", "message, contract", ""), ("AtomicSwapInvalidSecret", "contract", ""),
        ("AtomicSwapContractSpent", "contract, transaction", ""), ("AtomicSwapContractNotFound", "outputid", ""), ("ThreeBotNotFound", "identifier", ""),
        ("ThreeBotInactive", "identifier, expiration", ""), ("AddressNotInWallet", "address", ""), ("ERC20RegistrationForbidden", "address", ""),
    ):
        fs = [p.strip() for p in ps.split(",") if p.strip() != "message"]
        rows.append(("error." + c, ER + c, "__init__", "def f(self, %s):\n%s%s" % (ps, chk, "".join("    self._%s = %s\n" % (x, x) for x in fs)), "error object",
                     dict(modules=("tfchain.errors",), what=("accept", "raises:TypeError", "fields:" + ",".join("_" + x for x in fs)))))
        for x in fs:
            if c in ("ExplorerServerPostError", "ExplorerNotAvailable", "ExplorerInvalidResponse") and x == "endpoint":
                continue
            rows.append(("error.%s.%s" % (c, x), ER + c, x, "def f(self):\n    return self._%s" % x, "error object", dict(modules=("tfchain.errors",))))
    rows.append(("error.precision", ER + "CurrencyPrecisionOverflow", "precision", "def f(self):\n    _, _, e = self._value.as_tuple()\n    return abs(e)", "error object", dict(modules=("tfchain.errors",))))
    table(ctx, rows)
    r = ctx.repo
    for c, b in (("ExplorerNoContent", "ExplorerError"), ("ExplorerServerError", "ExplorerError"), ("ExplorerServerPostError", "ExplorerError"), ("ExplorerNotAvailable", "ExplorerError"),
                 ("ExplorerInvalidResponse", "ExplorerError"), ("AtomicSwapForbidden", "AtomicSwapContractError"), ("AtomicSwapInvalidSecret", "AtomicSwapContractError"),
                 ("AtomicSwapContractInvalid", "AtomicSwapContractError"), ("AtomicSwapContractSpent", "AtomicSwapContractError")):
        ctx.ob("error.kind." + c, ER + c in r.classes and ER + b in r.mro(ER + c), "tfchain/errors.py", "%s is no longer a kind of %s" % (c, b))


CMOD = dict(modules=("tfchain.TFChainClient",))
COP = ("explorer_get", "explorer_post", "json_loads", "from_json", "from_recipient", "unlockhash", "type", "block_get", "coin_inputs", "coin_outputs", "blockstake_inputs", "blockstake_outputs", "id", "parentid",
       "minimum_miner_fee", "last_block")
CEXC = ("raises:ExplorerInvalidResponse", "raises:ExplorerNoContent", "raises:ThreeBotNotFound", "raises:TypeError", "raises:ValueError")
INV = "tfchain.errors.ExplorerInvalidResponse('', e, r)"


def p20(ctx):
    A = dict(CMOD, opaque_names=COP + ("_transaction_from_explorer_transaction",), what=("value", "accept") + CEXC)
    C = CL + "TFChainClient"
    rows = [
        ("block", C, "block_get", """
def f(self, value):
    e = "/explorer/?"
    r = {}
    try:
        if isinstance(value, int):
            e = "/explorer/blocks/{}".format(int(value))
            r = json_loads(self.explorer_get(endpoint=e))
            r = r['block']
            if r['height'] != int(value):
                raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        else:
            i = str(Hash(value=value))
            e = "/explorer/hashes/" + i
            r = json_loads(self.explorer_get(endpoint=e))
            if r['hashtype'] != 'blockid':
                raise tfchain.errors.ExplorerInvalidResponse('', e, r)
            r = r['block']
            if r['blockid'] != i:
                raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        txs = [self._transaction_from_explorer_transaction(x, endpoint=e, resp=r) for x in r['transactions']]
        raw = r['rawblock']
        pid = Hash.from_json(obj=raw['parentid'])
        ids = r.get('minerpayoutids', None) or []
        outs = raw.get('minerpayouts', None) or []
        if len(outs) != len(ids):
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        pay = []
        for k, mp in enumerate(outs):
            pay.append(ExplorerMinerPayout(id=Hash.from_json(ids[k]), value=Currency.from_json(mp['value']), unlockhash=UnlockHash.from_json(mp['unlockhash'])))
        return ExplorerBlock(id=Hash.from_json(r['blockid']), parentid=pid, height=int(r['height']), timestamp=int(raw['timestamp']), transactions=txs, miner_payouts=pay)
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "block read from an explorer", A),
        ("transaction", C, "transaction_get", """
def f(self, txid):
    i = str(Hash(value=txid))
    e = "/explorer/hashes/" + i
    r = json_loads(self.explorer_get(endpoint=e))
    try:
        if r['hashtype'] != 'transactionid':
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        r = r['transaction']
        if r['id'] != i:
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        return self._transaction_from_explorer_transaction(r, endpoint=e, resp=r)
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "transaction read from an explorer", A),
        ("submit", C, "transaction_put", """
def f(self, transaction):
    if isinstance(transaction, TransactionBaseClass):
        transaction = transaction.json()
    e = "/transactionpool/transactions"
    r = json_loads(self.explorer_post(endpoint=e, data=transaction))
    try:
        return str(Hash(value=r['transactionid']))
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "transaction given to an explorer", dict(A, opaque_names=COP + ("json",))),
        ("address", C, "unlockhash_get", """
def f(self, target):
    u = str(ConditionTypes.from_recipient(target).unlockhash)
    e = "/explorer/hashes/" + u
    r = json_loads(self.explorer_get(endpoint=e))
    try:
        if r['hashtype'] != 'unlockhash':
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        txs = [self._transaction_from_explorer_transaction(x, endpoint=e, resp=r) for x in r['transactions']]
        ms = [UnlockHash.from_json(obj=uh) for uh in r.get('multisigaddresses', None) or []]
        for a in ms:
            if a.type != UnlockHashType.MULTI_SIG:
                raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        er = None
        if 'erc20info' in r:
            i = r['erc20info']
            er = ERC20AddressInfo(address_tft=UnlockHash.from_json(i['tftaddress']), address_erc20=ERC20Address.from_json(i['erc20address']), confirmations=int(i['confirmations']))
        txs.sort(key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
        return ExplorerUnlockhashResult(unlockhash=UnlockHash.from_json(u), transactions=txs, multisig_addresses=ms, erc20_info=er, client=self)
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "address read from an explorer", A),
        ("output", C, "_output_get", """
def f(self, id, kind):
    if kind not in ('coinoutputid', 'blockstakeoutputid'):
        raise ValueError('')
    i = str(Hash(value=id))
    e = "/explorer/hashes/" + i
    r = json_loads(self.explorer_get(endpoint=e))
    try:
        k = r['hashtype']
        if k != kind:
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        t = r['transactions']
        n = len(t)
        if n not in (1, 2):
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        a = t[0]
        b = None
        if n == 2:
            if t[1]['height'] > t[0]['height']:
                b = t[1]
            else:
                b = t[0]
                a = t[1]
        a = self._transaction_from_explorer_transaction(a, endpoint=e, resp=r)
        if b is not None:
            b = self._transaction_from_explorer_transaction(b, endpoint=e, resp=r)
        o = None
        for x in (a.coin_outputs if k == 'coinoutputid' else a.blockstake_outputs):
            if str(x.id) == i:
                o = x
                break
        if o is None:
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        return (o, a, b)
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "output read from an explorer", A),
        ("coin_output", C, "coin_output_get", "def f(self, id):\n    return self._output_get(id, expected_hash_type='coinoutputid')", "output read from an explorer", dict(A, opaque_names=COP + ("_output_get",))),
        ("blockstake_output", C, "blockstake_output_get", "def f(self, id):\n    return self._output_get(id, expected_hash_type='blockstakeoutputid')", "output read from an explorer",
         dict(A, opaque_names=COP + ("_output_get",))),
        ("info", C, "blockchain_info_get", """
def f(self):
    e = "/explorer"
    r = json_loads(self.explorer_get(endpoint=e))
    try:
        i = Hash.from_json(obj=r['blockid'])
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
    return ExplorerBlockchainInfo(last_block=self.block_get(i))
""", "chain information", A),
        ("parsed", C, "_transaction_from_explorer_transaction", """
def f(self, etxn, endpoint="/?", resp=None):
    if resp is None:
        resp = {}
    t = transactions.from_json(obj=etxn['rawtransaction'], id=etxn['id'])
    a = etxn.get('coininputoutputs', None) or []
    if len(t.coin_inputs) != len(a):
        raise tfchain.errors.ExplorerInvalidResponse('', endpoint, resp)
    for i, o in enumerate(a):
        o = CoinOutput.from_json(obj=o)
        o.id = t.coin_inputs[i].parentid
        t.coin_inputs[i].parent_output = o
    b = etxn.get('coinoutputids', None) or []
    if len(t.coin_outputs) != len(b):
        raise tfchain.errors.ExplorerInvalidResponse('', endpoint, resp)
    for i, o in enumerate(b):
        t.coin_outputs[i].id = Hash.from_json(obj=o)
    c = etxn.get('blockstakeinputoutputs', None) or []
    if len(t.blockstake_inputs) != len(c):
        raise tfchain.errors.ExplorerInvalidResponse('', endpoint, resp)
    for i, o in enumerate(c):
        o = BlockstakeOutput.from_json(obj=o)
        o.id = t.blockstake_inputs[i].parentid
        t.blockstake_inputs[i].parent_output = o
    d = etxn.get('blockstakeoutputids', None) or []
    if len(t.blockstake_outputs) != len(d):
        raise tfchain.errors.ExplorerInvalidResponse('', endpoint, resp)
    for i, o in enumerate(d):
        t.blockstake_outputs[i].id = Hash.from_json(obj=o)
    t.unconfirmed = etxn.get('unconfirmed', False)
    if not t.unconfirmed:
        t.height = int(etxn.get('height'))
    return t
""", "transaction of an explorer answer", dict(A, opaque_names=COP, what=("value", "accept", "stores:id", "stores:parent_output", "stores:unconfirmed", "stores:height") + CEXC)),
        ("mint", CL + "TFChainMinterClient", "condition_get", """
def f(self, height=None):
    e = "/explorer/mintcondition"
    if height is not None:
        if not isinstance(height, (int, str)):
            raise TypeError('')
        e += "/%d" % (int(height))
    r = json_loads(self._client.explorer_get(endpoint=e))
    try:
        return ConditionTypes.from_json(obj=r['mintcondition'])
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "mint condition read from an explorer", A),
        ("threebot", CL + "TFChainThreeBotClient", "record_get", """
def f(self, identifier):
    e = "/explorer/3bot"
    if isinstance(identifier, int):
        identifier = str(identifier)
    elif isinstance(identifier, BotName):
        e = "/explorer/whois/3bot"
        identifier = str(identifier)
    elif isinstance(identifier, PublicKey):
        identifier = str(identifier)
    elif isinstance(identifier, str):
        if BotName.REGEXP.fullmatch(identifier) is not None:
            e = "/explorer/whois/3bot"
        else:
            try:
                PublicKey.from_json(identifier)
            except ValueError as x:
                raise ValueError('') from x
    else:
        raise TypeError('')
    e += "/{}".format(identifier)
    try:
        r = self._client.explorer_get(endpoint=e)
    except tfchain.errors.ExplorerNoContent as x:
        raise tfchain.errors.ThreeBotNotFound(identifier) from x
    r = json_loads(r)
    try:
        b = r['record']
        return ThreeBotRecord(identifier=int(b['id']), names=[BotName.from_json(n) for n in b.get('names', []) or []], addresses=[NetworkAddress.from_json(a) for a in b.get('addresses', []) or []],
                              public_key=PublicKey.from_json(b['publickey']), expiration=int(b['expiration']))
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "3Bot record read from an explorer", A),
        ("erc20", CL + "TFChainERC20Client", "address_get", """
def f(self, unlockhash):
    if isinstance(unlockhash, str):
        unlockhash = UnlockHash.from_json(unlockhash)
    elif not isinstance(unlockhash, UnlockHash):
        raise TypeError('')
    if unlockhash.type != UnlockHashType.PUBLIC_KEY:
        raise TypeError('')
    e = "/explorer/hashes/" + str(unlockhash)
    r = json_loads(self._client.explorer_get(endpoint=e))
    try:
        if r['hashtype'] != 'unlockhash':
            raise tfchain.errors.ExplorerInvalidResponse('', e, r)
        if not 'erc20info' in r:
            raise tfchain.errors.ExplorerNoContent('', endpoint=e)
        i = r['erc20info']
        return ERC20AddressInfo(address_tft=UnlockHash.from_json(i['tftaddress']), address_erc20=ERC20Address.from_json(i['erc20address']), confirmations=int(i['confirmations']))
    except KeyError as x:
        raise tfchain.errors.ExplorerInvalidResponse(str(x), e, r) from x
""", "ERC20 address read from an explorer", A),
        ("get", C, "explorer_get", "def f(self, endpoint):\n    return self._explorer_client.get(endpoint)", "explorer access", dict(CMOD, opaque_names=("get",))),
        ("post", C, "explorer_post", "def f(self, endpoint, data):\n    return self._explorer_client.post(endpoint, data)", "explorer access", dict(CMOD, opaque_names=("post",))),
    ]
    for c, ps, texts in (("ExplorerUnlockhashResult", ("unlockhash", "transactions", "multisig_addresses", "erc20_info"), ()),
                         ("ERC20AddressInfo", ("address_tft", "address_erc20", "confirmations"), ()),
                         ("ExplorerBlock", ("id", "parentid", "height", "timestamp", "transactions", "miner_payouts"), ("id", "parentid")),
                         ("ExplorerMinerPayout", ("id", "value", "unlockhash"), ("id", "unlockhash")),
                         ("ThreeBotRecord", ("identifier", "names", "addresses", "public_key", "expiration"), ())):
        if c != "ExplorerUnlockhashResult":
            rows.append((c + ".init", CL + c, "__init__", "def f(self, %s):\n%s" % (", ".join(ps), "".join("    self._%s = %s\n" % (x, x) for x in ps)), "explorer data",
                         dict(CMOD, what=("accept", "fields:" + ",".join("_" + x for x in ps)))))
        for x in ps:
            rows.append(("%s.%s" % (c, x), CL + c, x, "def f(self):\n    return %s" % ("str(self._%s)" if x in texts else "self._%s") % x, "explorer data", CMOD))
    rows += [
        ("result.init", CL + "ExplorerUnlockhashResult", "__init__", """
def f(self, unlockhash, transactions, multisig_addresses, erc20_info, client=None):
    if client is not None and not isinstance(client, TFChainClient):
        raise TypeError('')
    self._unlockhash = unlockhash
    self._transactions = transactions
    self._multisig_addresses = multisig_addresses
    self._client = client
    self._erc20_info = erc20_info
""", "explorer data", dict(CMOD, what=("accept", "raises:TypeError", "fields:_unlockhash,_transactions,_multisig_addresses,_client,_erc20_info"))),
        ("info.init", CL + "ExplorerBlockchainInfo", "__init__", "def f(self, last_block):\n    self._last_block = last_block", "explorer data", dict(CMOD, what=("accept", "fields:_last_block"))),
        ("info.block", CL + "ExplorerBlockchainInfo", "last_block", "def f(self):\n    return self._last_block", "explorer data", CMOD),
        ("info.id", CL + "ExplorerBlockchainInfo", "blockid", "def f(self):\n    return str(self.last_block.id)", "explorer data", dict(CMOD, opaque_names=("id",))),
        ("info.height", CL + "ExplorerBlockchainInfo", "height", "def f(self):\n    return self.last_block.height", "explorer data", CMOD),
        ("info.time", CL + "ExplorerBlockchainInfo", "timestamp", "def f(self):\n    return self.last_block.timestamp", "explorer data", CMOD),
    ]
    table(ctx, rows)
