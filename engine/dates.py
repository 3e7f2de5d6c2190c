"""Calendar and clock arithmetic of the `time` crate: documented meaning of its types as abstract values.
A date is its year and day of year, related to the day number D (days since 1970-01-01) by D = jan1(year) + day of
year - 1; a time of day is its second and nanosecond, an instant its unix second and nanosecond, a duration its
total of nanoseconds.  Calendar functions without a linear form are functions of those, evaluated in witnesses."""
import datetime
from core import *
import core, seqs, witness
import models
from models import model, OK, ERR, SOME, NONE, sub, unwrap_ptr, CONST
import third
from third import DATE, ODT, TIME, DUR, TS_MIN, TS_MAX, G, whole, err, odt, valid_date, in_range, nanos, split_nanos, record

PDT, UDT, OFF = "time::plain_date_time::PlainDateTime", "time::utc_date_time::UtcDateTime", "time::utc_offset::UtcOffset"
MONTH, WEEKDAY = "time::month::Month", "time::weekday::Weekday"
DAY = 86400
JD0 = 2440588


# ---------------------------------------------------------------- the calendar
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def jan1(y):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 - 719162


def year_of(d):
    y = d // 366 + 1970
    while jan1(y + 1) <= d:
        y += 1
    while jan1(y) > d:
        y -= 1
    return y


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def before(y, m):
    return CUM[m - 1] + (1 if m > 2 and leap(y) else 0)


def month_of(y, o):
    return next((m for m in range(12, 0, -1) if o > before(y, m)), 1)


def weekday_of(y, o):
    return (jan1(y) + o - 1 + 3) % 7           # 1970-01-01 was a Thursday


def weeks_in(y):
    return 53 if weekday_of(y, 1) == 3 or leap(y) and weekday_of(y, 1) == 2 else 52


def iso(y, o):
    w = (o - weekday_of(y, o) + 9) // 7        # weekday counted from Monday = 0
    if w < 1:
        return y - 1, weeks_in(y - 1)
    if w > weeks_in(y):
        return y + 1, 1
    return y, w


def valid_cal(y, m, d):
    return -9999 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= (CUM[m] - CUM[m - 1] + (m == 2 and leap(y)))


FN = dict(jan1=jan1, year=year_of, month=month_of, day=lambda y, o: o - before(y, month_of(y, o)),
          cal=lambda y, m, d: before(y, m) + d, isoy=lambda y, o: iso(y, o)[0], isow=lambda y, o: iso(y, o)[1],
          sweek=lambda y, o: (o - (weekday_of(y, o) + 1) % 7 + 6) // 7, mweek=lambda y, o: (o - weekday_of(y, o) + 6) // 7)
PRED = dict(date=lambda y, o: -9999 <= y <= 9999 and 1 <= o <= 365 + leap(y), cal=valid_cal)
witness.FN.update(FN)
witness.PRED.update(PRED)


def fn(name, lins, lo, hi, signed=True):
    """the value of a calendar function, as a linear form"""
    if not any(l[1] for l in lins):
        return L(FN[name](*(l[0] for l in lins)))
    v = memo_var(("fn", name) + tuple(lins), 64, signed, "%s(%s)" % (name, ", ".join(show_lin(l) for l in lins)), lo, hi)
    return LV(v.vid)


def call_of(lin):
    """(name, arguments) of a form that is one calendar function"""
    if lin[0] == 0 and len(lin[1]) == 1 and lin[1][0][1] == 1:
        k = VARS[lin[1][0][0]].key
        if k and k[0] == "fn":
            return k[1], k[2:]
    return None, ()


def sc(F, w, lin):
    lin = F.lnorm(lin)
    return Sc(w, None, lin) if lin[1] else lin[0] & mask(w)


def lin_sc(st, x, w, signed):
    return lin_of(st.F, x, w, signed)


# ---------------------------------------------------------------- dates and day numbers
def date_parts(E, st, v):
    d = whole(E, st, v, "TDate")
    return lin_of(st.F, d.d[0], 32, True), lin_of(st.F, d.d[1], 16, False)


def tdate(st, y, o):
    return Obj("TDate", sc(st.F, 32, y), sc(st.F, 16, o))


def day_number(st, y, o):
    j = lsub(fn("jan1", (y,), jan1(-9999), jan1(10000)), L(1))
    return ladd(j, o)


def known(st, d):
    """the date a day number was made of"""
    F = st.F
    d = F.lnorm(d)
    for v, c in d[1]:
        k = VARS[v].key
        if c == 1 and k and k[:2] == ("fn", "jan1"):
            o = laddc(lsub(d, LV(v)), 1)
            if F.ge0(laddc(k[2], 9999)) and F.ge0(laddc(lscale(k[2], -1), 9999)) and F.ge0(laddc(o, -1)) and F.ge0(laddc(lscale(o, -1), 365)) or any(
                    F.misc[t] and F.eq0(lsub(t[1], k[2])) is True and F.eq0(lsub(t[2], o)) is True
                    for t in F.misc if isinstance(t, tuple) and t and t[0] == "date"):
                return tdate(st, k[2], o)
    return None


def from_day(st, d):
    """the date of a day number in range"""
    F = st.F
    d = F.lnorm(d)
    r = known(st, d)
    if r is not None:
        return r
    y = fn("year", (d,), -9999, 9999)
    o = laddc(lsub(d, fn("jan1", (y,), jan1(-9999), jan1(10000))), 1)
    F.assume_ge(laddc(o, -1))
    F.assume_ge(laddc(lscale(o, -1), 366))
    if y[1]:
        record(st, ("date", y, o), True)
    return tdate(st, y, o)


def day_ok(st, d):
    return known(st, d) is not None or seqs.need(st.F, laddc(d, -jan1(-9999))) and seqs.need(st.F, laddc(lscale(d, -1), jan1(10000) - 1))


def num(lin, kind):
    """a month (from 1) or a day of the week (from Monday = 0)"""
    return Obj("TNum", lin, kind)


def num_of(E, st, v):
    v = unwrap_ptr(v)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    if isinstance(v, Obj) and v.k == "TNum":
        return v.d[0]
    if isinstance(v, Agg):
        return None if v.v is None else v
    raise Unsup("month or weekday %r" % (v,))


def num_lin(E, st, v, first):
    v = num_of(E, st, v)
    return L(v.v + first) if isinstance(v, Agg) else v


models.DISC["TNum"] = lambda E, st, v: sc(st.F, 8, v.d[0])


def month(st, y, o):
    return fn("month", (y, o), 1, 12)


def local(E, st, v):
    """local second and nanosecond of an instant"""
    v = unwrap_ptr(v)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    o = whole(E, st, v, "TOdt")
    s = lin_of(st.F, o.d[0], 64, True)
    if isinstance(v, Opq):
        s = ladd(s, offset(st, s, v.t))
    return s, lin_of(st.F, o.d[1], 32, False)


def offset(st, s, t):
    if t[0] == "utc":
        return L(0)
    f = LV(memo_var(("off", t), 32, True, "offset(%s)" % show_term(t), -93599, 93599).vid)
    st.F.assume_ge(laddc(ladd(s, f), -TS_MIN))
    st.F.assume_ge(laddc(lscale(ladd(s, f), -1), TS_MAX))
    return f


def day_of(E, st, v):
    s, n = local(E, st, v)
    return divmod_lin(st.F, s, DAY)


def any_date(E, st, v):
    """year and day of year of a date or of an instant's local date"""
    v = unwrap_ptr(v)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    if isinstance(v, Opq):
        t = E.ty(v.ty)
        v2 = E.expand(st, v)
    else:
        v2 = v
    if isinstance(v2, Obj) and v2.k == "TDate":
        return date_parts(E, st, v2)
    if isinstance(v2, Obj) and v2.k == "TPdt":
        return date_parts(E, st, v2.d[0])
    d = from_day(st, day_of(E, st, v)[0])
    return date_parts(E, st, d)


HAVE_DATE = (DATE, ODT, PDT, UDT)


def on_dates(*names, types=HAVE_DATE):
    def deco(f):
        for t in types:
            for n in names:
                if t + "::" + n not in ("%s::year" % DATE, "%s::ordinal" % DATE, "%s::to_ordinal_date" % DATE):
                    model("%s::%s" % (t, n))(f)
        return f
    return deco


@on_dates("year")
def _(E, st, c):
    return sc(st.F, 32, any_date(E, st, c.args[0])[0])


@on_dates("ordinal")
def _(E, st, c):
    return sc(st.F, 16, any_date(E, st, c.args[0])[1])


@on_dates("to_ordinal_date")
def _(E, st, c):
    y, o = any_date(E, st, c.args[0])
    return Agg((sc(st.F, 32, y), sc(st.F, 16, o)))


@on_dates("month")
def _(E, st, c):
    return num(month(st, *any_date(E, st, c.args[0])), "month")


@on_dates("day")
def _(E, st, c):
    return sc(st.F, 8, fn("day", any_date(E, st, c.args[0]), 1, 31))


@on_dates("to_calendar_date")
def _(E, st, c):
    y, o = any_date(E, st, c.args[0])
    return Agg((sc(st.F, 32, y), num(month(st, y, o), "month"), sc(st.F, 8, fn("day", (y, o), 1, 31))))


def weekday(st, y, o):
    return num(divmod_lin(st.F, laddc(day_number(st, y, o), 3), 7)[1], "weekday")


@on_dates("weekday")
def _(E, st, c):
    return weekday(st, *any_date(E, st, c.args[0]))


@on_dates("iso_week")
def _(E, st, c):
    return sc(st.F, 8, fn("isow", any_date(E, st, c.args[0]), 1, 53))


@on_dates("sunday_based_week")
def _(E, st, c):
    return sc(st.F, 8, fn("sweek", any_date(E, st, c.args[0]), 0, 53))


@on_dates("monday_based_week")
def _(E, st, c):
    return sc(st.F, 8, fn("mweek", any_date(E, st, c.args[0]), 0, 53))


@on_dates("to_iso_week_date")
def _(E, st, c):
    y, o = any_date(E, st, c.args[0])
    return Agg((sc(st.F, 32, fn("isoy", (y, o), -10000, 10000)), sc(st.F, 8, fn("isow", (y, o), 1, 53)), weekday(st, y, o)))


@on_dates("to_julian_day")
def _(E, st, c):
    return sc(st.F, 32, laddc(day_number(st, *any_date(E, st, c.args[0])), JD0))


@model(DATE + "::from_julian_day")
def _(E, st, c):
    d = laddc(lin_of(st.F, c.args[0], 32, True), -JD0)
    return OK(from_day(st, d)) if day_ok(st, d) else err(st, c, "day")


@model(DATE + "::from_calendar_date")
def _(E, st, c):
    F = st.F
    y, m, d = lin_of(F, c.args[0], 32, True), num_lin(E, st, c.args[1], 1), lin_of(F, c.args[2], 8, False)
    (a, p), (b, q) = call_of(m), call_of(d)
    if a == "month" and b == "day" and p == q and F.eq0(lsub(p[0], y)) is True:
        return OK(tdate(st, *p))
    for l in (laddc(y, 9999), laddc(lscale(y, -1), 9999), laddc(d, -1), laddc(lscale(d, -1), 31)):
        if not seqs.need(F, l):
            return err(st, c, "date")
    k = ("cal", y, m, d)
    ok = F.misc.get(k)
    if ok is None:
        if F.ge0(laddc(lscale(d, -1), 28)):
            ok = True
        elif not any(l[1] for l in k[1:]):
            ok = valid_cal(y[0], m[0], d[0])
        else:
            ok = bool(st.choice(2, "cal"))
            record(st, k, ok)
    if not ok:
        return err(st, c, "date")
    o = fn("cal", (y, m, d), 1, 366)
    if y[1] or o[1]:
        record(st, ("date", y, o), True)
    return OK(tdate(st, y, o))


def moved(E, st, v, days):
    y, o = date_parts(E, st, v)
    d = ladd(day_number(st, y, o), days)
    return from_day(st, d) if day_ok(st, d) else None


@model(DATE + "::next_day", DATE + "::previous_day")
def _(E, st, c):
    r = moved(E, st, c.args[0], L(1 if c.cpath.endswith("next_day") else -1))
    return NONE() if r is None else SOME(r)


def tdiv(st, lin, k):
    """quotient truncated toward zero"""
    if seqs.need(st.F, lin):
        return divmod_lin(st.F, lin, k)[0]
    return lscale(divmod_lin(st.F, lscale(lin, -1), k)[0], -1)


def moved_by(E, st, c, sign):
    return moved(E, st, c.args[0], lscale(tdiv(st, third.dur_of(E, st, c.args[1]), DAY * G), sign))


@model(DATE + "::checked_add", DATE + "::checked_sub")
def _(E, st, c):
    r = moved_by(E, st, c, 1 if c.cpath.endswith("add") else -1)
    return NONE() if r is None else SOME(r)


@model("<%s as core::ops::arith::Add<%s>>::add" % (DATE, DUR), "<%s as core::ops::arith::Sub<%s>>::sub" % (DATE, DUR))
def _(E, st, c):
    r = moved_by(E, st, c, 1 if "::add" in c.cpath[-6:] else -1)
    if r is None:
        raise Panic("overflow adding duration to date")
    return r


@model("<%s as core::ops::arith::Sub>::sub" % DATE, "<%s as core::ops::arith::Sub<%s>>::sub" % (DATE, DATE))
def _(E, st, c):
    a, b = (day_number(st, *date_parts(E, st, x)) for x in c.args[:2])
    return third.dur(lscale(lsub(a, b), DAY * G))


@model(DATE + "::replace_ordinal")
def _(E, st, c):
    y = date_parts(E, st, c.args[0])[0]
    o = lin_of(st.F, c.args[1], 16, False)
    return OK(tdate(st, y, o)) if valid_date(E, st, y, o) else err(st, c, "date")


@model("%s::is_leap_year" % "time::util", "time_core::util::is_leap_year", "time::util::is_leap_year")
def _(E, st, c):
    y = lin_of(st.F, c.args[0], 32, True)
    return int(valid_date(E, st, y, L(366)))


@model("time_core::util::days_in_year", "time::util::days_in_year")
def _(E, st, c):
    y = lin_of(st.F, c.args[0], 32, True)
    return 366 if valid_date(E, st, y, L(366)) else 365


# ---------------------------------------------------------------- comparisons
def order(E, st, pairs):
    """-1, 0 or 1, forking"""
    for a, b in pairs:
        d = lsub(a, b)
        if seqs.needeq(st.F, d):
            continue
        return 1 if seqs.need(st.F, d) else -1
    return 0


def cmp_key(E, st, v):
    v = unwrap_ptr(v)
    while isinstance(v, Ptr):
        v = E.deref_read(st, v)
    o = E.expand(st, v) if isinstance(v, Opq) else v
    if isinstance(o, Obj):
        if o.k == "TDate":
            return date_parts(E, st, o)
        if o.k == "TOdt":
            return lin_of(st.F, o.d[0], 64, True), lin_of(st.F, o.d[1], 32, False)
        if o.k == "TDur":
            return (o.d[0][1],)
        if o.k == "TNum":
            return (o.d[0],)
    raise Unsup("comparison of %r" % (v,))


ORDERED = (DATE, ODT, UDT, DUR)


def variant_no(r):
    return Agg((), r + 1)


for _t in ORDERED:
    for _p in ("<%s as core::cmp::PartialEq>::eq" % _t, "<%s as core::cmp::PartialEq>::ne" % _t):
        def _f(E, st, c, neg=_p.endswith("ne")):
            return int((order(E, st, list(zip(cmp_key(E, st, c.args[0]), cmp_key(E, st, c.args[1])))) == 0) != neg)
        model(_p)(_f)
    def _g(E, st, c):
        r = order(E, st, list(zip(cmp_key(E, st, c.args[0]), cmp_key(E, st, c.args[1]))))
        return variant_no(r)
    model("<%s as core::cmp::Ord>::cmp" % _t)(_g)
    model("<%s as core::cmp::PartialOrd>::partial_cmp" % _t)(lambda E, st, c, g=_g: SOME(g(E, st, c)))
    for _n, _ok in (("lt", (-1,)), ("le", (-1, 0)), ("gt", (1,)), ("ge", (0, 1))):
        model("<%s as core::cmp::PartialOrd>::%s" % (_t, _n))(
            lambda E, st, c, ok=_ok: int(order(E, st, list(zip(cmp_key(E, st, c.args[0]), cmp_key(E, st, c.args[1])))) in ok))


for _t, _first in ((MONTH, 1), (WEEKDAY, 0)):
    for _n in ("eq", "ne"):
        def _f(E, st, c, neg=_n == "ne", first=_first):
            a, b = (num_lin(E, st, x, first) for x in c.args[:2])
            return int(seqs.needeq(st.F, lsub(a, b)) != neg)
        model("<%s as core::cmp::PartialEq>::%s" % (_t, _n))(_f)


@model("<u8 as core::convert::From<%s>>::from" % MONTH)
def _(E, st, c):
    return sc(st.F, 8, num_lin(E, st, c.args[0], 1))


@model("<%s as core::convert::TryFrom<u8>>::try_from" % MONTH)
def _(E, st, c):
    m = lin_of(st.F, c.args[0], 8, False)
    if seqs.need(st.F, laddc(m, -1)) and seqs.need(st.F, laddc(lscale(m, -1), 12)):
        return OK(num(m, "month"))
    return err(st, c, "month")


for _n, _k in (("number_from_monday", (0, 1)), ("number_from_sunday", (1, 1)), ("number_days_from_monday", (0, 0)), ("number_days_from_sunday", (1, 0))):
    def _f(E, st, c, k=_k):
        w = num_lin(E, st, c.args[0], 0)
        return sc(st.F, 8, laddc(divmod_lin(st.F, laddc(w, k[0]), 7)[1], k[1]))
    model("%s::%s" % (WEEKDAY, _n))(_f)


# ---------------------------------------------------------------- time of day
def ttime(st, s, n):
    return Obj("TTime", sc(st.F, 32, n), s)


def clock(E, st, v):
    """second of the day and nanosecond of a time, or of an instant's local time"""
    v = unwrap_ptr(v)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    if isinstance(v, Obj) and v.k == "TPdt":
        v = v.d[1]
    if isinstance(v, Obj) and v.k == "TTime":
        return v.d[1], lin_of(st.F, v.d[0], 32, False)
    s, n = local(E, st, v)
    return divmod_lin(st.F, s, DAY)[1], n


HAVE_TIME = (TIME, ODT, PDT, UDT)


def on_times(*names, types=HAVE_TIME):
    def deco(f):
        for t in types:
            for n in names:
                if t + "::" + n not in ("%s::nanosecond" % ODT, "%s::microsecond" % ODT, "%s::millisecond" % ODT):
                    model("%s::%s" % (t, n))(f)
        return f
    return deco


def hms(st, s):
    h, r = divmod_lin(st.F, s, 3600)
    m, x = divmod_lin(st.F, r, 60)
    return h, m, x


for _i, _n in enumerate(("hour", "minute", "second")):
    on_times(_n)(lambda E, st, c, i=_i: sc(st.F, 8, hms(st, clock(E, st, c.args[0])[0])[i]))


@on_times("nanosecond")
def _(E, st, c):
    return sc(st.F, 32, clock(E, st, c.args[0])[1])


@on_times("microsecond")
def _(E, st, c):
    return sc(st.F, 32, divmod_lin(st.F, clock(E, st, c.args[0])[1], 1000)[0])


@on_times("millisecond")
def _(E, st, c):
    return sc(st.F, 16, divmod_lin(st.F, clock(E, st, c.args[0])[1], 1000000)[0])


for _n, _k in (("", None), ("_milli", 10 ** 6), ("_micro", 1000), ("_nano", 1)):
    def _f(E, st, c, k=_k):
        s, n = clock(E, st, c.args[0])
        out = [sc(st.F, 8, x) for x in hms(st, s)]
        if k:
            out.append(sc(st.F, 16 if k == 10 ** 6 else 32, divmod_lin(st.F, n, k)[0] if k > 1 else n))
        return Agg(tuple(out))
    on_times("as_hms" + _n, "to_hms" + _n)(_f)

    def _g(E, st, c, k=_k):
        F = st.F
        h, m, s = (lin_of(F, x, 8, False) for x in c.args[:3])
        n = lin_of(F, c.args[3], 16 if k == 10 ** 6 else 32, False) if k else L(0)
        for x, top in ((h, 23), (m, 59), (s, 59), (n, G // (k or 1) - 1)):
            if not seqs.need(F, laddc(lscale(x, -1), top)):
                return err(st, c, "time")
        return OK(ttime(st, ladd(ladd(lscale(h, 3600), lscale(m, 60)), s), lscale(n, k or 1)))
    model(TIME + "::from_hms" + _n)(_g)


@model(ODT + "::time", UDT + "::time", PDT + "::time")
def _(E, st, c):
    s, n = clock(E, st, c.args[0])
    return ttime(st, s, n)


@model(ODT + "::date", UDT + "::date", PDT + "::date")
def _(E, st, c):
    return tdate(st, *any_date(E, st, c.args[0]))


@model(PDT + "::new", DATE + "::with_time")
def _(E, st, c):
    return Obj("TPdt", tdate(st, *date_parts(E, st, c.args[0])), c.args[1])


@model(DATE + "::midnight")
def _(E, st, c):
    return Obj("TPdt", tdate(st, *date_parts(E, st, c.args[0])), ttime(st, L(0), L(0)))


def instant(E, st, date, time):
    y, o = date_parts(E, st, date)
    s, n = clock(E, st, time)
    return odt(st.F.lnorm(ladd(lscale(day_number(st, y, o), DAY), s)), n)


@model(PDT + "::assume_utc", PDT + "::as_utc")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    return instant(E, st, v.d[0], v.d[1])


@model(ODT + "::new_utc", UDT + "::new")
def _(E, st, c):
    return instant(E, st, c.args[0], c.args[1])


def utc(E, st, v):
    """the argument is the UTC offset"""
    v = unwrap_ptr(v)
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    if isinstance(v, Obj) and v.k == "TOff" and v.d[0] == L(0):
        return
    raise Unsup("offset %r" % (v,))


@model(PDT + "::assume_offset")
def _(E, st, c):
    utc(E, st, c.args[1])
    v = c.args[0]
    return instant(E, st, v.d[0], v.d[1])


@model(ODT + "::to_offset", ODT + "::to_utc", UDT + "::to_offset")
def _(E, st, c):
    if len(c.args) > 1:
        utc(E, st, c.args[1])
    return whole(E, st, c.args[0], "TOdt")


@model(ODT + "::replace_offset")
def _(E, st, c):
    utc(E, st, c.args[1])
    s, n = local(E, st, c.args[0])
    return odt(s, n)


@model(ODT + "::offset")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    if isinstance(v, Opq):
        return Obj("TOff", offset(st, lin_of(st.F, whole(E, st, v, "TOdt").d[0], 64, True), v.t))
    return Obj("TOff", L(0))


@model(OFF + "::whole_seconds")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    return sc(st.F, 32, v.d[0])


@model(OFF + "::is_utc")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    return int(seqs.needeq(st.F, v.d[0]))


for _t in (UDT,):
    for _n in ("unix_timestamp", "unix_timestamp_nanos", "nanosecond", "from_unix_timestamp", "from_unix_timestamp_nanos"):
        for _w, _f in models.M.get(ODT + "::" + _n, ()):
            model("%s::%s" % (_t, _n))(_f)


@model("<%s as core::ops::arith::Sub>::sub" % ODT, "<%s as core::ops::arith::Sub<%s>>::sub" % (ODT, ODT))
def _(E, st, c):
    a, b = (nanos(st.F, whole(E, st, x, "TOdt")) for x in c.args[:2])
    return third.dur(lsub(a, b))


# ---------------------------------------------------------------- durations
for _n, _k in (("minutes", 60), ("hours", 3600), ("days", DAY), ("weeks", 7 * DAY)):
    def _f(E, st, c, k=_k):
        n = lin_of(st.F, c.args[0], 64, True)
        if not (st.F.ge0(laddc(n, 1 << 40)) and st.F.ge0(laddc(lscale(n, -1), 1 << 40))):
            raise Unsup("duration of %s" % show_lin(n))
        return third.dur(lscale(n, k * G))
    model("%s::%s" % (DUR, _n))(_f)

for _n, _k, _w in (("whole_nanoseconds", 1, 128), ("whole_microseconds", 1000, 128), ("whole_milliseconds", 10 ** 6, 128), ("whole_seconds", G, 64),
                   ("whole_minutes", 60 * G, 64), ("whole_hours", 3600 * G, 64), ("whole_days", DAY * G, 64)):
    def _f(E, st, c, k=_k, w=_w):
        v = unwrap_ptr(c.args[0])
        v = E.deref_read(st, v) if isinstance(v, Ptr) else v
        t = third.dur_of(E, st, v)
        return sc(st.F, w, t if k == 1 else tdiv(st, t, k))
    model("%s::%s" % (DUR, _n))(_f)


@model(DUR + "::subsec_nanoseconds")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    v = E.deref_read(st, v) if isinstance(v, Ptr) else v
    t = third.dur_of(E, st, v)
    return sc(st.F, 32, lsub(t, lscale(tdiv(st, t, G), G)))


for _n, _s in (("Add", 1), ("Sub", -1)):
    def _f(E, st, c, s=_s):
        return third.dur(ladd(third.dur_of(E, st, c.args[0]), third.dur_of(E, st, c.args[1]), s))
    for _p in ("<%s as core::ops::arith::%s>::%s" % (DUR, _n, _n.lower()), "<%s as core::ops::arith::%s<%s>>::%s" % (DUR, _n, DUR, _n.lower())):
        model(_p)(_f)


# ---------------------------------------------------------------- constants
def const_date(E, b, prov, off, t):
    x = int.from_bytes(bytes(b[off:off + 4]), "little", signed=True)
    return Obj("TDate", (x >> 10) & mask(32), x & 0x1ff)


def const_off(E, b, prov, off, t):
    s, m, h = (int.from_bytes(bytes(b[off + i:off + i + 1]), "little", signed=True) for i in range(3))
    return Obj("TOff", L(h * 3600 + m * 60 + s))


def const_time(E, b, prov, off, t):
    n = int.from_bytes(bytes(b[off:off + 4]), "little")
    s, m, h = b[off + 4], b[off + 5], b[off + 6]
    return Obj("TTime", n, L(h * 3600 + m * 60 + s))


def const_dur(E, b, prov, off, t):
    s = int.from_bytes(bytes(b[off:off + 8]), "little", signed=True)
    return third.dur(L(s * G + int.from_bytes(bytes(b[off + 8:off + 12]), "little", signed=True)))


def const_pdt(E, b, prov, off, t):
    return Obj("TPdt", const_date(E, b, prov, off + 8, t), const_time(E, b, prov, off, t))


def const_odt(E, b, prov, off, t):
    tm, d = const_time(E, b, prov, off, t), const_date(E, b, prov, off + 8, t)
    f = const_off(E, b, prov, off + 12, t).d[0][0] if t.d["path"] == ODT else 0
    y = d.d[0] - (1 << 32 if d.d[0] >> 31 else 0)
    return odt(L((jan1(y) + d.d[1] - 1) * DAY + tm.d[1][0] - f), L(tm.d[0]))


CONST.update({DATE: const_date, OFF: const_off, TIME: const_time, DUR: const_dur, PDT: const_pdt, ODT: const_odt, UDT: const_odt})
