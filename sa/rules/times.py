"""Dates, durations, period numbers and plain hashes of the helper library (P35); HTTP requests (P36)."""

from ..core import *
from ..lib import *
from ..terms import *
from .table import table

JS = "tfchain.internal.jsutils."
TM = JS + "Time_"
HC = "tfchain.internal.HttpClient."

INHR = """
def f(self, seconds):
    if seconds < 60:
        return "%s seconds" % seconds
    if seconds < 3600:
        return "%s minutes" % round(seconds / 60.0, 1)
    if seconds < 3600 * 24:
        return "%s hours" % round(seconds / 3600.0, 1)
    if seconds < 3600 * 24 * 7:
        return "%s days" % round(seconds / (3600.0 * 24), 1)
    return "%s weeks" % round(seconds / (3600.0 * 24 * 7), 1)
"""

MINUTE = """
def f(self, epoch=None):
    if epoch is None:
        epoch = time.time()
    if epoch < 1262318400.0:
        raise RuntimeError('')
    return int((epoch - 1262318400.0) / 60.0)
"""

FORMAT = """
def f(self, epoch, formatstr='%Y/%m/%d %H:%M:%S', local=True):
    e = float(epoch)
    t = time.localtime(e) if local else time.gmtime(e)
    return time.strftime(formatstr, t)
"""

HRDATE = """
def f(self, datestr, local=True):
    if datestr.strip() == "":
        return 0
    try:
        return time.mktime(time.strptime(datestr.strip(), "%Y/%m/%d"))
    except BaseException:
        raise ValueError('')
"""

HRDATETIME = """
def f(self, hrdatetime):
    if hrdatetime.strip() == "":
        return 0
    try:
        return int(time.mktime(time.strptime(hrdatetime.strip(), "%Y/%m/%d %H:%M:%S")))
    except BaseException:
        raise ValueError('')
"""

ANY = """
def f(self, val, in_list=False):
    if isinstance(val, list):
        for x in val:
            n = self.any2epoch(x, in_list=True)
            if n != 0:
                return n
        return 0
    if val is None:
        return 0
    if isinstance(val, int):
        return val
    if isinstance(val, str):
        try:
            return self.HRDateTime2epoch(val)
        except BaseException:
            pass
        try:
            return self.HRDateToEpoch(val)
        except BaseException:
            pass
    if isinstance(val, datetime.datetime):
        return self.pythonDateTime2Epoch(val)
    if in_list:
        return 0
    raise ValueError('')
"""

PY = """
def f(self, pythonDateTime, local=True):
    if not isinstance(pythonDateTime, datetime.datetime):
        raise ValueError('')
    return %s
"""

DATE = """
def f(self, v):
    if v is None:
        return self.default_get()
    if isinstance(v, str):
        v = v.replace("'", "").replace('"', "").strip()
    if v in [0, "0", None, ""]:
        return 0
    d = datetime.datetime.fromtimestamp(tfchain.internal.jsutils.DateTime.clean(self, v))
    return int(datetime.datetime(d.year, d.month, d.day, 0, 0).strftime('%s'))
"""

CHECK = """
def f(self, value):
    try:
        self.clean(value)
        return True
    except:
        return False
"""

BLAKE = """
def f(s, digest_size=32):
    if isinstance(s, str):
        s = s.encode()
    return hashlib.blake2b(s, digest_size=digest_size).digest()
"""


def counted(x):
    """dividing a count that is never negative: rounded towards zero is rounded down"""
    def one(y):
        if y.tag == "call" and y.args[0] is t("b", "int") and len(y.args[1]) == 1 and not y.args[2]:
            q = y.args[1][0]
            if q.tag == "op" and q.args[0] == "/" and is_const(q.args[2]) and type(cval(q.args[2])) is int:
                m = q.args[1]
                if m.tag == "call" and m.args[0].tag in ("bm", "a") and "getMinuteId" in str(m.args[0]):
                    return mk_op("//", m, q.args[2])
        return None
    return subst(x, one)


def p35(ctx):
    M = dict(modules=("tfchain.internal.jsutils",))
    N = ("any2epoch", "HRDateTime2epoch", "HRDateToEpoch", "pythonDateTime2Epoch", "epoch2HRDateTime", "getMinuteId", "formatTime", "getTimeEpoch", "clean", "default_get", "toString")

    def o(*names, **kw):
        return dict(M, opaque_names=names, **kw)
    rows = [
        ("now", TM, "epoch", "def f(self):\n    return int(time.time())", "the current time in seconds", M),
        ("now.get", TM, "getTimeEpoch", "def f(self):\n    return int(time.time())", "the current time in seconds", M),
        ("now.bin", TM, "getTimeEpochBin", "def f(self):\n    return struct.pack('<I', self.getTimeEpoch())", "the current time in 4 bytes", o("getTimeEpoch")),
        ("now.text", TM, "getLocalTimeHR", "def f(self):\n    return self.formatTime(self.getTimeEpoch())", "the current time as text", o("getTimeEpoch", "formatTime")),
        ("now.file", TM, "getLocalTimeHRForFilesystem", "def f(self):\n    return time.strftime('%d_%b_%Y_%H_%M_%S', time.gmtime())", "the current time as text", M),
        ("seconds", TM, "getSecondsInHR", INHR, "seconds in the largest fitting unit", M),
        ("format", TM, "formatTime", FORMAT, "a time in a given format, local or not", M),
        ("date", TM, "epoch2HRDate", "def f(self, epoch, local=True):\n    return self.formatTime(epoch, '%Y/%m/%d', local)", "the date of a time", o("formatTime")),
        ("datetime", TM, "epoch2HRDateTime", "def f(self, epoch, local=True):\n    return self.formatTime(epoch, '%Y/%m/%d %H:%M:%S', local)", "date and time of a time", o("formatTime")),
        ("time", TM, "epoch2HRTime", "def f(self, epoch, local=True):\n    return self.formatTime(epoch, '%H:%M:%S', local)", "time of the day of a time", o("formatTime")),
        ("datetime.plain", None, JS + "epoch2HRDateTime", "def f(epoch, local=True):\n    return tfchain.internal.jsutils.Time_().epoch2HRDateTime(epoch, local=local)", "date and time of a time", o("epoch2HRDateTime")),
        ("python.epoch", TM, "pythonDateTime2Epoch", PY % "pythonDateTime.timestamp()", "the time of a datetime", dict(M, what=("value", "accept", "raises:ValueError"))),
        ("python.text", TM, "pythonDateTime2HRDateTime", PY % "self.epoch2HRDateTime(pythonDateTime.timestamp(), local)", "the text of a datetime", o("epoch2HRDateTime", what=("value", "accept", "raises:ValueError"))),
        ("python.datetime", TM, "epoch2pythonDateTime", "def f(self, epoch):\n    return datetime.datetime.fromtimestamp(epoch)", "the datetime of a time", M),
        ("python.date", TM, "epoch2pythonDate", "def f(self, epoch):\n    return datetime.datetime.fromtimestamp(epoch).date()", "the date of a time", M),
        ("iso", TM, "epoch2ISODateTime", "def f(self, epoch):\n    return datetime.datetime.fromtimestamp(epoch).isoformat()", "the ISO text of a time", M),
        ("minute", TM, "getMinuteId", MINUTE, "the number of the minute", dict(M, what=("value", "accept", "raises:RuntimeError"))),
        ("five", TM, "get5MinuteId", "def f(self, epoch=None):\n    return int(self.getMinuteId(epoch) / 5)", "the number of the five minutes", o("getMinuteId", pre=counted)),
        ("hour", TM, "getHourId", "def f(self, epoch=None):\n    return int(self.getMinuteId(epoch) / 60)", "the number of the hour", o("getMinuteId", pre=counted)),
        ("day", TM, "getDayId", "def f(self, epoch=None):\n    return int(self.getMinuteId(epoch) / (60 * 24))", "the number of the day", o("getMinuteId", pre=counted)),
        ("five.start", TM, "fiveMinuteIdToEpoch", "def f(self, fiveMinuteId):\n    return fiveMinuteId * 300 + 1262318400", "the start of five minutes", M),
        ("read.date", TM, "HRDateToEpoch", HRDATE, "reading a date", dict(M, what=("value", "accept", "raises:ValueError"))),
        ("read.datetime", TM, "HRDateTime2epoch", HRDATETIME, "reading a date and time", dict(M, what=("value", "accept", "raises:ValueError"))),
        ("any", TM, "any2epoch", ANY, "the time of anything that denotes one", o(*N, what=("value", "accept", "raises:ValueError"))),
        ("any.text", TM, "any2HRDateTime", "def f(self, val):\n    return self.epoch2HRDateTime(self.any2epoch(val))", "the text of anything that denotes a time", o("any2epoch", "epoch2HRDateTime")),
        ("duration.check", JS + "Duration", "check", CHECK, "whether a text is a duration", o("clean")),
        ("duration.text", JS + "Duration", "toHR", "def f(self, v):\n    return self.toString(v)", "the text of a duration", o("toString")),
        ("duration.code", JS + "Duration", "python_code_get", "def f(self, value):\n    return self.clean(value)", "the code for a duration", o("clean")),
        ("duration.default", JS + "Duration", "get_default", "def f(self):\n    return 0", "the duration that stands for none", M),
        ("datetime.show", JS + "DateTime", "toHR", "def f(self, v):\n    return self.toString(v)", "the text of a date and time", o("toString")),
        ("datetime.default", JS + "DateTime", "default_get", "def f(self):\n    return self._default if self._default else 0", "the time that stands for none", M),
        ("day.start", JS + "Date", "clean", DATE, "the start of the day a date denotes", o("default_get", opaque=(JS + "DateTime.clean",))),
        ("blake2", None, JS + "blake2", BLAKE, "the hash of data or text", M),
        ("blake2.text", None, JS + "blake2_string", "def f(s, digest_size=32):\n    return tfchain.internal.jsutils.blake2(s, digest_size=digest_size).hex()", "the hash as text", M),
    ]
    table(ctx, rows)


def p36(ctx):
    M = dict(modules=("tfchain.internal.HttpClient",))
    R = dict(M, opaque_names=("_http_request",))
    rows = [
        ("head", HC + "Connection", "get_head", "def f(self, url):\n    return self._http_request(url, method='HEAD')", "asking for the head only", R),
        ("put", HC + "Connection", "put", "def f(self, url, data=None, headers=None, **params):\n    return self._http_request(url, data=data, headers=headers, method='PUT', **params)", "putting data", R),
        ("delete", HC + "Connection", "delete", "def f(self, url, data=None, headers=None, **params):\n    return self._http_request(url, data=data, headers=headers, method='DELETE', **params)", "deleting", R),
        ("ping", HC + "Connection", "ping", """
def f(self, url):
    try:
        r = self.get_head(url)
    except Exception as e:
        return "401" in str(e)
    return r.status == 200
""", "whether a server is there", dict(M, opaque_names=("get_head",))),
        ("auth", HC + "Connection", "simpleAuth", """
def f(self, url, username, password):
    q = urllib.request.Request(url)
    q.add_header("Authorization", "Basic %s" % base64.b64encode(('%s:%s' % (username, password)).encode()).decode())
    try:
        return urllib.request.urlopen(q)
    except IOError as e:
        raise RuntimeError("")
""", "a request with a name and password", dict(M, what=("value", "accept", "raises:RuntimeError", "calls:add_header", "calls:urlopen"))),
        ("client.put", HC + "HttpClient", "put", "def f(self, url, data=None, headers=None):\n    return Connection().put(url, data=data, headers=headers)", "putting data", R),
        ("client.connection", HC + "HttpClient", "getConnection", "def f(self):\n    return Connection()", "a connection", M),
        ("client.download", HC + "HttpClient", "download", "def f(self, url, dest):\n    return Connection().download(url, dest)", "downloading", dict(M, opaque_names=("download",))),
        ("error.text", HC + "HTTPError", "__str__", "def f(self):\n    return '%s:\\n %s' % (self.status_code, self.msg)", "the text of a failed request", M),
        ("download", HC + "Connection", "download", """
def f(self, fileUrl, downloadPath, customHeaders=None):
    u = urllib.request.urlopen(fileUrl)
    with open(downloadPath, 'wb') as f:
        while True:
            b = u.read(8192)
            if not b:
                break
            f.write(b)
""", "writing what was downloaded", dict(M, what=("accept", "calls:urlopen", "calls:open", "calls:write", "calls:read"))),
    ]
    table(ctx, rows)
