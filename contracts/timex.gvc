// The instants of package time: seconds since 1970, nanoseconds in the second, a reading of the
// monotonic clock (0: none) and the location (nil: UTC). The contracts of package time are assumed.
package timex

fun clock() fn
// units(s, n, d): how many times d nanoseconds fit between the year 1 and s seconds, n nanoseconds after 1970
fun units(int, int, int) int
fun yearof(int) int
fun monthof(int) int

axiom units-seconds: forall(int(s), int(n), int(m), imp(n == 0 && m > 0 && m % 1000000000 == 0, units(s, n, m) == (s + 62135596800) / (m / 1000000000)), trig(units(s, n, m)))
// seconds between 0001-01-01 and 1970-01-01
pred epoch() := 62135596800
pred instant(t, s, n) := t.sec == s && t.ns == n
pred sane(s) := -(1<<62) <= s && s <= 1<<62

pred leap(y) := y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
// the first second of the year y, and of the month m of it (Gregorian calendar, UTC)
pred yearstart(y) := 86400 * (365*(y-1970) + (y-1969)/4 - (y-1901)/100 + (y-1601)/400)
pred before(m, l) := ite(m <= 1, 0, ite(m == 2, 31, ite(m == 3, 59 + l, ite(m == 4, 90 + l, ite(m == 5, 120 + l, ite(m == 6, 151 + l,
  ite(m == 7, 181 + l, ite(m == 8, 212 + l, ite(m == 9, 243 + l, ite(m == 10, 273 + l, ite(m == 11, 304 + l, ite(m == 12, 334 + l, 365 + l))))))))))))
pred monthstart(y, m) := yearstart(y) + 86400 * before(m, ite(leap(y), 1, 0))
pred calendar(s, y, m) := monthstart(y, m) <= s && s < monthstart(y, m+1) && 1 <= m && m <= 12

extern time.Now() (t)
  modifies calls(clock())
  ensures ncalls(clock()) == old(ncalls(clock())) + 1 && tick() == old(tick()) + 1
  ensures callret(time.Time, clock(), old(ncalls(clock()))) == t
  ensures t.mono > 0 && 0 <= t.ns && t.ns < 1000000000

extern time.Time.UnixNano(t) (n)
  modifies nothing
  ensures imp(-(1<<33) < t.sec && t.sec < 1<<33, n == t.sec * 1000000000 + t.ns)

extern time.Time.Add(t, d) (r)
  modifies nothing
  ensures imp(0 <= t.sec && t.sec < 1<<33, r.sec * 1000000000 + r.ns == t.sec * 1000000000 + t.ns + d && 0 <= r.ns && r.ns < 1000000000)

extern time.NewTicker(d) (t)
  requires d > 0
  modifies nothing
  allocs anything
  ensures t != nil && t.C != nil

extern time.(*Ticker).Stop(t)
  modifies nothing

extern time.Unix(sec, nsec) (t)
  requires sane(sec)
  modifies nothing
  ensures instant(t, sec + nsec / 1000000000, nsec % 1000000000) && t.mono == 0

extern time.Time.UTC(t) (r)
  modifies nothing
  ensures instant(r, t.sec, t.ns) && r.mono == t.mono && r.loc == nil

extern time.Time.Unix(t) (s)
  modifies nothing
  ensures s == t.sec

extern time.Time.Truncate(t, d) (r)
  requires sane(t.sec)
  modifies nothing
  ensures imp(d <= 0, instant(r, t.sec, t.ns))
  ensures imp(d > 0, (r.sec + epoch()) * 1000000000 + r.ns == units(t.sec, t.ns, d) * d)
  ensures imp(d > 0, r.sec * 1000000000 + r.ns <= t.sec * 1000000000 + t.ns && t.sec * 1000000000 + t.ns < r.sec * 1000000000 + r.ns + d)
  ensures 0 <= r.ns && r.ns < 1000000000 && r.mono == 0 && r.loc == t.loc

extern time.Time.Year(t) (y)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures y == yearof(t.sec) && yearstart(y) <= t.sec && t.sec < yearstart(y+1)

extern time.Time.Month(t) (m)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures m == monthof(t.sec) && calendar(t.sec, yearof(t.sec), m)

extern time.Time.Day(t) (d)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures calendar(t.sec, yearof(t.sec), monthof(t.sec)) && d == (t.sec - monthstart(yearof(t.sec), monthof(t.sec))) / 86400 + 1

extern time.Time.YearDay(t) (d)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures yearstart(yearof(t.sec)) <= t.sec && t.sec < yearstart(yearof(t.sec)+1) && d == (t.sec - yearstart(yearof(t.sec))) / 86400 + 1

extern time.Time.Date(t) (y, m, d)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures y == yearof(t.sec) && yearstart(y) <= t.sec && t.sec < yearstart(y+1)
  ensures m == monthof(t.sec) && calendar(t.sec, yearof(t.sec), m)
  ensures d == (t.sec - monthstart(y, m)) / 86400 + 1

extern time.Time.Hour(t) (h)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures h == t.sec % 86400 / 3600

extern time.Time.Minute(t) (m)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures m == t.sec % 3600 / 60

extern time.Time.Second(t) (s)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures s == t.sec % 60

// 1970-01-01 was a Thursday
extern time.Time.Weekday(t) (d)
  requires sane(t.sec) && t.loc == nil
  modifies nothing
  ensures d == (t.sec / 86400 + 4) % 7

extern time.Time.AddDate(t, years, months, days) (r)
  requires years == 0 && months == 0 && sane(t.sec) && t.loc == nil && -(1<<40) <= days && days <= 1<<40
  modifies nothing
  ensures instant(r, t.sec + days * 86400, t.ns) && r.mono == 0 && r.loc == nil

extern time.Date(year, month, day, hour, min, sec, nsec, loc) (t)
  requires loc == time.UTC && 1 <= month && month <= 12 && 0 <= nsec && nsec < 1000000000
  requires -150000000000 <= year && year <= 150000000000
  modifies nothing
  ensures instant(t, monthstart(year, month) + (day-1)*86400 + hour*3600 + min*60 + sec, nsec) && t.mono == 0 && t.loc == nil

extern time.Time.Sub(t, u) (d)
  modifies nothing
  ensures imp(t.mono > 0 && u.mono > 0 && -(1<<63) <= t.mono - u.mono && t.mono - u.mono < 1<<63, d == t.mono - u.mono)
  ensures imp(t.mono == 0 || u.mono == 0, between(d, (t.sec - u.sec) * 1000000000 + t.ns - u.ns))
pred between(d, x) := imp(-(1<<63) <= x && x < 1<<63, d == x) && imp(x < -(1<<63), d == -(1<<63)) && imp(x >= 1<<63, d == (1<<63) - 1)


func Now() (t)
  prop P34
  modifies calls(clock())
  ensures[reading] ncalls(clock()) == old(ncalls(clock())) + 1 && tick() == old(tick()) + 1
  ensures[utc] utcof(t, callret(time.Time, clock(), old(ncalls(clock()))))
pred utcof(t, n) := t.sec == n.sec && t.ns == n.ns && t.mono == n.mono && t.loc == nil

func Custom(sec, nsec) (t)
  prop P23
  requires sane(sec)
  modifies nothing
  ensures[instant] instant(t, sec + nsec / 1000000000, nsec % 1000000000)
  ensures[utc] t.loc == nil

package timex/diffx

func New() (d)
  prop P34
  modifies nothing
  allocs Differ
  ensures[zero] d != nil && fresh(d)

func (*Differ).Start(d)
  prop P34
  requires d != nil
  modifies d.start, calls(clock())
  ensures[reading] ncalls(clock()) == old(ncalls(clock())) + 1
  ensures[start] timex.utcof(d.start, callret(time.Time, clock(), old(ncalls(clock()))))

func (*Differ).End(d)
  prop P34
  requires d != nil
  modifies d.end, calls(clock())
  ensures[reading] ncalls(clock()) == old(ncalls(clock())) + 1
  ensures[end] timex.utcof(d.end, callret(time.Time, clock(), old(ncalls(clock()))))

func (*Differ).GetDiff(d) (r)
  prop P34
  requires d != nil
  modifies nothing
  ensures[monotonic] imp(d.start.mono > 0 && d.end.mono > 0 && -(1<<63) <= d.end.mono - d.start.mono && d.end.mono - d.start.mono < 1<<63, r == d.end.mono - d.start.mono)
  ensures[wall] imp(d.start.mono == 0 || d.end.mono == 0, timex.between(r, (d.end.sec - d.start.sec) * 1000000000 + d.end.ns - d.start.ns))

func (*Differ).GetStart(d) (t)
  prop P34
  requires d != nil
  modifies nothing
  ensures[start] t == d.start

func (*Differ).GetEnd(d) (t)
  prop P34
  requires d != nil
  modifies nothing
  ensures[end] t == d.end

package timex/truncatex

pred floor(r, s, k) := r <= s && s < r + k && r + timex.epoch() == units(s, 0, 1000000000 * k) * k
pred ok(s) := -(1<<61) <= s && s <= 1<<61
// a little more for the functions that others may be built from
pred okhelp(s) := -(1<<61) - 100000000 <= s && s <= (1<<61) + 100000000

func Truncate(sec, k) (r)
  prop P23
  requires okhelp(sec) && 0 < k && k <= 9223372036
  modifies nothing
  ensures[floor] floor(r, sec, k)

func TruncateSec(sec) (r)
  prop P23
  requires okhelp(sec)
  modifies nothing
  ensures[same] r == sec

func TruncateMin(sec) (r)
  prop P23
  requires okhelp(sec)
  modifies nothing
  ensures[floor] r <= sec && sec < r + 60 && r % 60 == 0

func TruncateHour(sec) (r)
  prop P23
  requires okhelp(sec)
  modifies nothing
  ensures[floor] r <= sec && sec < r + 3600 && r % 3600 == 0

func TruncateDay(sec) (r)
  prop P23
  requires okhelp(sec)
  modifies nothing
  ensures[floor] r <= sec && sec < r + 86400 && r % 86400 == 0

// 1969-12-29, 259200 seconds before 1970, was a Monday
func TruncateWeek(sec) (r)
  prop P23
  requires ok(sec)
  modifies nothing
  ensures[monday] r <= sec && sec < r + 604800 && (r + 259200) % 604800 == 0

func TruncateMonth(sec) (r)
  prop P23
  requires ok(sec)
  modifies nothing
  ensures[first] r == timex.monthstart(yearof(sec), monthof(sec)) && timex.calendar(sec, yearof(sec), monthof(sec))
  ensures[latest] r <= sec

func TruncateYear(sec) (r)
  prop P23
  requires ok(sec)
  modifies nothing
  ensures[first] r == timex.yearstart(yearof(sec))
  ensures[latest] r <= sec && sec < timex.yearstart(yearof(sec) + 1)
