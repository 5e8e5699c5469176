"""C32: time stamps and identifiers are well formed."""
import os
import random
import re
import time
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

import pymt.utils.utils as module
from engine import Campaign, Enumeration
from lib import ensure, must, same
from pymt.utils.utils import Utils

RULE = (
    "Generated local time zones (standard, odd minutes, daylight-saving rules, far offsets) and moments "
    "(around changes of the clock, years 1001 to 9998): the time stamp parses back to the moment, to the "
    "second, and carries a zone; the stamp as an object is the same moment. Written-out stamps of generated zone-aware instants are read back exactly. "
    "Identifiers by the thousand, with the random module seeded alike and from two forked processes, are 32 "
    "lower-case hexadecimal characters and all different. Non-trivial: a zone other than UTC."
)
ASSUMPTIONS = [
    "The clock is replaced where the module keeps the class of datetime under that name; a stamp of the real "
    "moment is accepted as well.",
]

ZONES = ["UTC0", "XXX-5:30", "XXX-5:45", "XXX3:30", "XXX12", "XXX-14", "XXX-0:30", "XXX11:59", "XXX-23:59", "XXX23:59",
         "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3",
         "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1", "XXX-1:23"]
FORMAT = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}(\d\d)?$")


class zone:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        time.tzset()


LOW = datetime(1001, 1, 3, tzinfo=timezone.utc).timestamp()
HIGH = datetime(9998, 12, 28, tzinfo=timezone.utc).timestamp()
# Changes of the clock in 2023 and 2024 in the zones above.
CHANGES = [1678604400, 1699164000, 1679792400, 1698541200, 1696089600, 1680364800, 1711846800, 1729990800,
           1710054000, 1730613600, 0, -1, 951782400, 1709164800, 1735689600, 253402300799 - 10 ** 6, 2 ** 31]


def moments():
    near = st.builds(lambda c, h, s: c + 900 * h + s, st.sampled_from(CHANGES), st.integers(-16, 16), st.integers(-2, 2))
    return st.one_of(near, near, st.integers(int(LOW), int(HIGH)), st.integers(0, 2 * 10 ** 9))


def stamp_cases():
    return st.fixed_dictionaries({"zone": st.sampled_from(ZONES), "t": moments(), "us": st.sampled_from([0, 1, 499999, 500000, 999999])})


def parse(text):
    d = must(Utils.from_timstamp_string, text, what="from_timstamp_string(%r)" % text)
    ensure(isinstance(d, datetime), "parsing gives a %s", type(d).__name__)
    ensure(d.tzinfo is not None and d.utcoffset() is not None, "the parsed stamp has no zone")
    return d


def judge(text, moment, before, after):
    ensure(isinstance(text, str), "a time stamp is a %s", type(text).__name__)
    ensure(FORMAT.match(text) is not None, "time stamp %r has another format", text)
    d = parse(text)
    ensure(d.microsecond == 0, "fractions of a second in %r", text)
    got = int(d.timestamp())
    ensure(got == moment or int(before) <= got <= int(after) + 1,
           "time stamp %r parses to the second %d, it was made at %d (or %d)", text, got, moment, int(before))
    return got == moment


def now(moment, before, what):
    d = must(Utils.get_datetime_stamp, what="get_datetime_stamp" + what)
    ensure(isinstance(d, datetime), "get_datetime_stamp gives a %s", type(d).__name__)
    got = int((d - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() // 1 if d.tzinfo else
              datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, fold=d.fold).timestamp())
    ensure(got == moment or int(before) <= got <= int(time.time()) + 1,
           "get_datetime_stamp%s gives %s, the second %d", what, d, got)


def check_stamp(case, ctx):
    t = case["t"]
    ctx.nt(case["zone"] != "UTC0")
    ctx.tag(case["zone"].split(",")[0])

    class Fixed(datetime):
        @classmethod
        def now(cls, tz=None):
            # (datetime.fromtimestamp of a subclass drops the fold.)
            d = datetime.fromtimestamp(t, tz)
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, case["us"], d.tzinfo, fold=d.fold)

        @classmethod
        def utcnow(cls):
            return cls.now(timezone.utc).replace(tzinfo=None)

    with zone(case["zone"]):
        before = time.time()
        text = must(Utils.get_timestamp_string)
        raw = must(Utils.get_timestamp)
        after = time.time()
        judge(text, int(before), before, after)
        ensure(isinstance(raw, bytes), "bytes form")
        judge(raw.decode(), int(before), before, after)
        now(int(before), before, "")
        real = getattr(module, "datetime", None)
        if real is datetime:
            module.datetime = Fixed
            try:
                before = time.time()
                text = must(Utils.get_timestamp_string, what="get_timestamp_string at %d in %s" % (t, case["zone"]))
                raw = must(Utils.get_timestamp)
                now(t, before, " at %d in %s" % (t, case["zone"]))
                after = time.time()
                if judge(text, t, before, after):
                    ctx.tag("moment replaced")
                    same(raw, text.encode(), "bytes form")
            finally:
                module.datetime = real


@st.composite
def text_cases(draw):
    offset = draw(st.one_of(st.integers(-1439, 1439), st.sampled_from([0, 0, 60, -60, 330, 345, -210, 840, -720, 1, -1, 59, -59])))
    # Zones of earlier centuries carry seconds.
    seconds = draw(st.one_of(st.just(0), st.just(0), st.integers(0, 59)))
    return {"t": draw(moments()), "offset": 60 * offset + (seconds if offset >= 0 else -seconds), "local": draw(st.sampled_from(ZONES))}


def check_text(case, ctx):
    z = timezone(timedelta(seconds=case["offset"]))
    d = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=case["t"])
    w = d.astimezone(z)
    o = abs(case["offset"])
    text = "%04d-%02d-%02d %02d:%02d:%02d %s%02d%02d" % (
        w.year, w.month, w.day, w.hour, w.minute, w.second, "-" if case["offset"] < 0 else "+", o // 3600, o // 60 % 60)
    if o % 60:
        text += "%02d" % (o % 60)
        ctx.tag("seconds in the offset")
    ctx.nt(case["offset"] != 0)
    with zone(case["local"]):
        got = parse(text)
        same(got, d, "instant of %r" % text)
        same(got.utcoffset(), timedelta(seconds=case["offset"]), "zone of %r" % text)
        same((got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond),
             (w.year, w.month, w.day, w.hour, w.minute, w.second, 0), "fields of %r" % text)


def id_cases(tier):
    for i in range(16 if tier == "quick" else 400):
        yield {"seed": i, "n": 3000}


def check_ids(case, ctx):
    seen = set()
    pat = re.compile(r"[0-9a-f]{32}$")
    state = random.getstate()

    def take(n):
        for _ in range(n):
            for x in (must(Utils.get_id_string), must(Utils.get_id)):
                if len(seen) % 2 == 0:
                    ensure(isinstance(x, str), "an id is a %s", type(x).__name__)
                else:
                    ensure(isinstance(x, bytes), "an id in bytes form is a %s", type(x).__name__)
                    x = x.decode()
                ensure(len(x) == 32 and pat.match(x) is not None, "id %r", x)
                ensure(x not in seen, "id %s came twice", x)
                seen.add(x)
    try:
        for _ in range(2):
            random.seed(case["seed"])
            take(case["n"] // 4)
        # Two processes with the same past.
        pipes = []
        for _ in range(2):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.write(w, "".join(Utils.get_id_string() for _ in range(100)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r) as f:
                text = f.read()
            os.waitpid(pid, 0)
            ensure(len(text) == 3200, "ids of a child process")
            for i in range(0, 3200, 32):
                x = text[i:i + 32]
                ensure(x not in seen, "id %s came twice, in two processes", x)
                seen.add(x)
        random.seed(case["seed"])
        take(case["n"] // 2)
    finally:
        random.setstate(state)
    ctx.nt()
    ctx.count("ids", len(seen))


CAMPAIGNS = [
    Campaign("stamps", lambda tier: stamp_cases(), check_stamp, 6000, 300000),
    Campaign("texts", lambda tier: text_cases(), check_text, 12000, 600000),
    Enumeration("ids", id_cases, check_ids),
]
