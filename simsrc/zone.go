package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// localZone gives the host a time zone other than UTC, sometimes one whose offset changes within the
// next hours or days (daylight saving time begins or ends).
func localZone(k *kit.Kit) {
	r := k.Rand("zone")
	off := r.Range(-12, 14) * 3600
	if r.Chance(1, 4) {
		off += []int{1800, 2700, -1800}[r.Intn(3)]
	}
	if r.Chance(1, 2) {
		time.Local = time.FixedZone("sim", off)
		k.Tracef("time zone %s", time.Now().Format("-07:00"))
		return
	}
	// A zone file with two transitions: +1h (or -1h) and back.
	d := []int{3600, -3600}[r.Intn(2)]
	t1 := time.Now().Unix() + int64(r.Intn(3*24*3600))
	t2 := t1 + int64(r.Range(1, 40))*24*3600
	var b bytes.Buffer
	b.WriteString("TZif")
	b.Write(make([]byte, 16))
	for _, n := range []uint32{0, 0, 0, 2, 2, 8} { // UT/local, std/wall, leap seconds, times, types, characters
		binary.Write(&b, binary.BigEndian, n)
	}
	binary.Write(&b, binary.BigEndian, []int32{int32(t1), int32(t2)})
	b.Write([]byte{1, 0})
	for i, o := range []int{off, off + d} {
		binary.Write(&b, binary.BigEndian, int32(o))
		b.Write([]byte{byte(i), byte(4 * i)})
	}
	b.WriteString("SIM\000SUM\000")
	loc, err := time.LoadLocationFromTZData("sim", b.Bytes())
	if err != nil {
		panic(err)
	}
	time.Local = loc
	k.Cover("dst")
	k.Tracef("time zone %s, %s from %s to %s", time.Now().Format("-07:00"), fmt.Sprint(d), time.Unix(t1, 0).UTC().Format(time.RFC3339), time.Unix(t2, 0).UTC().Format(time.RFC3339))
}
