"""helpers of the demonstrations: a log written by hand, loaded by the code in the current directory"""
import io
import os
import sys
import tempfile
from urllib.parse import quote
from xml.etree.ElementTree import Element

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import logging
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import mahjong

assert os.path.abspath(mahjong.__file__).startswith(os.getcwd()), mahjong.__file__
from loguru import logger

logger.remove()


def ev(tag, **attrs):
    return Element(tag, {k: str(v) for k, v in attrs.items()})


def esc(s):
    return str(s).replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def el(tag, **attrs):
    return "<%s %s/>" % (tag, "".join('%s="%s" ' % (k, esc(v)) for k, v in attrs.items()))


def nums(xs):
    return ",".join(str(x) for x in xs)


def head(n=4, names=None, typ=None, dan=None, rate=None, more=""):
    names = list(names or ["P%d" % i for i in range(n)])
    names += [""] * (4 - len(names))
    return (el("GO", type=typ if typ is not None else (169 if n == 4 else 185), lobby=0)
            + el("UN", n0=quote(names[0]), n1=quote(names[1]), n2=quote(names[2]), n3=quote(names[3]),
                 dan=dan or "10,11,12,%d" % (13 if n == 4 else 0),
                 rate=rate or "1500.00,1600.50,1700.25,%s" % ("1800.75" if n == 4 else "1500.00"),
                 sx="M,F,M,%s" % ("F" if n == 4 else "C")) + more + el("TAIKYOKU", oya=0))


def init(hands, kyoku=0, honba=0, sticks=0, dora=135, ten=None, oya=0):
    ten = list(ten or ([250] * 4 if len(hands) == 4 else [350] * 3))
    d = dict(seed=nums([kyoku, honba, sticks, 1, 2, dora]), ten=nums(ten + [0] * (4 - len(ten))), oya=oya)
    for i in range(4):
        d["hai%d" % i] = nums(hands[i]) if i < len(hands) else ""
    return el("INIT", **d)


def ryu(ten=None, n=4, owari=None, **kw):
    d = dict(ba="0,0", sc=nums(x for t in (list(ten or [250] * n) + [0] * (4 - n)) for x in (t, 0)))
    d.update(kw)
    if owari:
        d["owari"] = owari
    return el("RYUUKYOKU", **d)


OWARI4 = "250,15.0,250,5.0,250,-5.0,250,-15.0"
OWARI3 = "350,15.0,350,0.0,350,-15.0"


def xml(*parts):
    return '<mjloggm ver="2.3">' + "".join(parts) + "</mjloggm>"


def load(text):
    from mahjong.record.reader import from_file
    return from_file(io.StringIO(text))


def stored(text):
    """-> path of a scratch file with this content"""
    import atexit
    import shutil
    import tempfile
    d = tempfile.mkdtemp()
    atexit.register(shutil.rmtree, d)
    path = os.path.join(d, "table.csv")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return path


def pon(own, called, kui):
    ts = sorted(list(own) + [called])
    unused = ({0, 1, 2, 3} - {t % 4 for t in ts}).pop()
    return kui | 8 | unused << 5 | (ts[0] // 4 * 3 + ts.index(called)) << 9


def kakan(own, called, added, kui):
    ts = sorted(list(own) + [called])
    return kui | 16 | (added % 4) << 5 | (ts[0] // 4 * 3 + ts.index(called)) << 9


def chi(own, called):
    ts = sorted(list(own) + [called])
    t6 = (ts[0] // 36 * 7 + ts[0] % 36 // 4) * 3 + ts.index(called)
    h = [t % 4 for t in ts]
    return 3 | 4 | h[0] << 3 | h[1] << 5 | h[2] << 7 | t6 << 10


def ankan(tile):
    return tile << 8


def minkan(called, kui):
    return kui | called << 8


def kita(tile):
    return 32 | tile << 8


# plain hands for four players: nobody is near a win
H4 = [[0, 8, 16, 24, 36, 44, 52, 60, 72, 80, 88, 108, 112],
      [1, 9, 17, 25, 37, 45, 53, 61, 73, 81, 89, 109, 113],
      [2, 10, 18, 26, 38, 46, 54, 62, 74, 82, 90, 110, 114],
      [3, 11, 19, 27, 39, 47, 55, 63, 75, 83, 91, 111, 115]]
H3 = [[0, 32, 36, 44, 52, 60, 68, 72, 80, 88, 96, 108, 112],
      [1, 33, 37, 45, 53, 61, 69, 73, 81, 89, 97, 109, 113],
      [2, 34, 38, 46, 54, 62, 70, 74, 82, 90, 98, 110, 114]]


def reads(rec):
    from mahjong.record.universe.tenhou import to_commands
    return [tuple(c.to_record()) for c in to_commands(rec)]
