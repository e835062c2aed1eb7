package hevent

import (
	"encoding/json"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// C07_GoTime: any instant converts to a Go time and back exactly, in UTC.
func C07_GoTime() {
	n := vsym.Int64("n")
	v := event.Timestamp(n)
	vsym.Assert(v.Type == event.TimestampType && v.Timestamp.UnixNanos == n, "a timestamp holds its nanoseconds")
	t := v.Timestamp.GoTime()
	vsym.Assert(t.UnixNano() == n, "the Go time is the same instant")
	vsym.Assert(t.Location() == time.UTC, "the Go time is in UTC")
}

func dig(b byte) int64 { return int64(b - '0') }

// C07_JSON: the JSON form is RFC 3339 in UTC with every nanosecond.
func C07_JSON() {
	bases := []int64{0, 1642121157, -1, 951782400, -9223372036, 9223372036 - 1}
	base := bases[vsym.Choose("base", len(bases))]
	ns := vsym.Int64("ns")
	vsym.Assume(vsym.And(ns >= 0, ns < 1000000000))
	if base == -9223372036 {
		vsym.Assume(ns >= 145224192)
	}
	data, err := json.Marshal(event.Timestamp(base*1000000000 + ns))
	vsym.Assert(err == nil, "a timestamp encodes")
	sec := time.Unix(base, 0).UTC()
	want := sec.Format("\"2006-01-02T15:04:05")
	s := string(data)
	vsym.Assert(len(s) > len(want)+1 && s[:len(want)] == want, "date and time of day are right")
	vsym.Assert(s[len(s)-2:] == "Z\"", "the time is in UTC")
	frac := s[len(want) : len(s)-2]
	if frac == "" {
		vsym.Assert(ns == 0, "no fraction only for whole seconds")
		vsym.Reach("whole")
		return
	}
	vsym.Assert(frac[0] == '.' && len(frac) <= 10, "the fraction has at most nine digits")
	var v int64
	for i := 1; i <= 9; i++ {
		v *= 10
		if i < len(frac) {
			vsym.Assert(vsym.And(frac[i] >= '0', frac[i] <= '9'), "the fraction is digits")
			v += dig(frac[i])
		}
	}
	vsym.Assert(v == ns, "the fraction is the exact number of nanoseconds")
	vsym.Reach("fraction")
}

// C07_Names: every type has its own name, and unknown types have none.
func C07_Names() {
	a, b := event.ValueType(vsym.Byte("a")), event.ValueType(vsym.Byte("b"))
	na, nb := a.String(), b.String()
	known := func(t event.ValueType) bool { return t <= event.UnsignedIntegerType }
	vsym.Assert(known(a) == (na != "unknown_type"), "exactly the defined types have a name")
	if a != b && known(a) {
		vsym.Assert(na != nb, "two types never share a name")
		vsym.Reach("distinct")
	}
}

// C07_Day: every second of some minutes of some days.
func C07_Day() {
	days := []struct {
		n    int64
		date string
	}{{0, "1970-01-01"}, {-1, "1969-12-31"}, {11016, "2000-02-29"}, {19006, "2022-01-14"}, {24855, "2038-01-19"}, {-25567, "1900-01-01"}, {47540, "2100-02-28"}, {47541, "2100-03-01"}, {106750, "2262-04-10"}, {-106750, "1677-09-22"}}
	day := days[vsym.Choose("day", vsym.Pick(3, len(days)))]
	sec := vsym.Int64("sec")
	vsym.Assume(vsym.And(sec >= 0, sec < 60))
	sec += []int64{0, 23*3600 + 59*60, 9*3600 + 40*60, 12*3600 + 5*60}[vsym.Choose("minute", 4)]
	ns := []int64{0, 1, 120000000, 999999999}[vsym.Choose("ns", 4)]
	b, err := json.Marshal(event.Timestamp((day.n*86400+sec)*1000000000 + ns))
	vsym.Assert(err == nil, "a timestamp encodes")
	s := string(b)
	frac := []string{"", ".000000001", ".12", ".999999999"}[map[int64]int{0: 0, 1: 1, 120000000: 2, 999999999: 3}[ns]]
	vsym.Assert(len(s) == 22+len(frac), "the form has the right length")
	vsym.Assume(len(s) == 22+len(frac))
	vsym.Assert(s[:12] == `"`+day.date+"T" && s[14] == ':' && s[17] == ':' && s[20:] == frac+`Z"`, "the date is right")
	n := dig(s[12])*36000 + dig(s[13])*3600 + dig(s[15])*600 + dig(s[16])*60 + dig(s[18])*10 + dig(s[19])
	vsym.Assert(n == sec, "the time of day is right")
	vsym.Assert(vsym.And(vsym.And(s[12] <= '2', s[15] <= '5'), s[18] <= '5'), "the time of day is written as hours, minutes and seconds")
	for _, i := range []int{12, 13, 15, 16, 18, 19} {
		vsym.Assert(vsym.And(s[i] >= '0', s[i] <= '9'), "the time of day is digits")
	}
	vsym.Reach("day")
}

// C07_Text: the text form is the number of nanoseconds.
func C07_Text() {
	n := int64(0)
	if vsym.Bool("small") {
		n = vsym.Int64("n")
		lim := int64(vsym.Pick(100000, 100000000))
		vsym.Assume(vsym.And(n > -lim, n < lim))
	} else {
		base := int64(1)
		if vsym.Bool("ten") {
			for i := vsym.Choose("power", 19); i > 0; i-- {
				base *= 10
			}
		} else {
			base <<= uint(vsym.Choose("power", 64))
		}
		if vsym.Bool("negative") {
			base = -base
		}
		n = base + []int64{-1, 0, 1, 7, 1234}[vsym.Choose("offset", 5)]
	}
	s := event.Time{UnixNanos: n}.String()
	got, neg := uint64(0), false
	for i := 0; i < len(s); i++ {
		if i == 0 && s[0] == '-' {
			neg = true
			continue
		}
		vsym.Assert(s[i] >= '0' && s[i] <= '9', "the text form is a decimal number")
		got = got*10 + uint64(s[i]-'0')
	}
	if neg {
		got = -got
	}
	vsym.Assert(len(s) > 0 && int64(got) == n, "the text form is the number of nanoseconds")
}

// C07_Now: the current time is the current time.
func C07_Now() {
	before := time.Now().UnixNano()
	n := event.TimeNow().UnixNanos
	after := time.Now().UnixNano()
	vsym.Assert(before <= n && n <= after, "now is now")
	vsym.Reach("now")
}
