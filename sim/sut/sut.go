// Package sut calls the real decoder. A panic of the decoder is returned as a text, so that a simulated receiver can
// report it as what it is.
package sut

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
)

// Addr is an address or interrogator code as the library has it.
type Addr = common.ICAOAddress

// Guard calls f and returns the text of a panic, "" if none.
func Guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "twuillemin/modes/") && !strings.Contains(l, "\t") {
					if i := strings.LastIndex(l, "("); i > 0 {
						l = l[:i] // the arguments hold addresses of memory, which no seed decides
					}
					p += " in " + strings.TrimSpace(l)
					break
				}
			}
		}
	}()
	f()
	return ""
}

// ReadMessage decodes a Mode S frame.
func ReadMessage(b []byte) (m messages.ModeSMessage, err error, p string) {
	p = Guard(func() { m, err = reader.ReadMessage(b) })
	return
}

// CheckCRC checks the integrity of a frame.
func CheckCRC(m messages.ModeSMessage, b []byte, addrs, iis map[Addr]bool) (a Addr, err error, p string) {
	p = Guard(func() { a, err = reader.CheckCRC(m, b, addrs, iis) })
	return
}

// Version converts 0, 1, 2 to a version of the library.
func Version(v int) adsb.ADSBVersion {
	return [...]adsb.ADSBVersion{adsb.ADSBV0, adsb.ADSBV1, adsb.ADSBV2}[v]
}

// ReadADSB decodes the message part of an extended squitter.
func ReadADSB(v int, a, c bool, b []byte) (m adsb.Message, err error, p string) {
	p = Guard(func() { m, err = adsbreader.ReadADSBMessage(Version(v), a, c, b) })
	return
}

// ReadCommB decodes the message part of a Comm-B reply.
func ReadCommB(b []byte) (m []bds.Message, err error, p string) {
	p = Guard(func() { m, err = commb.ReadCommBMessage(b) })
	return
}

// ReadRA decodes a resolution advisory.
func ReadRA(b []byte) (m *ra.ResolutionAdvisory, err error, p string) {
	p = Guard(func() { m, err = ra.ReadResolutionAdvisory(b) })
	return
}

// AirborneGlobal decodes a pair of airborne positions.
func AirborneGlobal(elat, elon, olat, olon uint32, evenLast bool) (lat, lon float64, err error, p string) {
	p = Guard(func() { lat, lon, err = geo.GetCPRAirborneGlobalPosition(elat, elon, olat, olon, evenLast) })
	return
}

// SurfaceGlobal decodes a pair of surface positions.
func SurfaceGlobal(elat, elon, olat, olon uint32, evenLast bool, rlat, rlon float64) (lat, lon float64, err error, p string) {
	p = Guard(func() { lat, lon, err = geo.GetCPRSurfaceGlobalPosition(elat, elon, olat, olon, evenLast, rlat, rlon) })
	return
}

// AirborneLocal decodes an airborne position with a reference.
func AirborneLocal(clat, clon uint32, rlat, rlon float64, odd bool) (lat, lon float64, p string) {
	p = Guard(func() { lat, lon = geo.GetCPRAirborneLocalPosition(clat, clon, rlat, rlon, odd) })
	return
}

// SurfaceLocal decodes a surface position with a reference.
func SurfaceLocal(clat, clon uint32, rlat, rlon float64, odd bool) (lat, lon float64, p string) {
	p = Guard(func() { lat, lon = geo.GetCPRSurfaceLocalPosition(clat, clon, rlat, rlon, odd) })
	return
}

// Distance computes a ground distance.
func Distance(a, b, c, d float64) (m float64, p string) {
	p = Guard(func() { m = geo.ComputeGroundDistance(a, b, c, d) })
	return
}

// IsNil tells whether a returned message is nothing, also when it is a nil pointer in an interface.
func IsNil(m interface{}) bool {
	if m == nil {
		return true
	}
	v := reflect.ValueOf(m)
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func:
		return v.IsNil()
	}
	return false
}

// ELM gives the segment number and the data of an extended length message segment.
func ELM(m messages.ModeSMessage) (seg int, part []byte, ok bool) {
	e, ok := m.(*messages.MessageDF24)
	if !ok {
		return 0, nil, false
	}
	return int(e.NumberOfDSegment), e.MessageCommD, true
}

// Part gives the message part that a decoded long reply hands on.
func Part(m messages.ModeSMessage) []byte {
	switch t := m.(type) {
	case *messages.MessageDF16:
		return t.MessageACAS
	case *messages.MessageDF17:
		return t.MessageExtendedSquitter
	case *messages.MessageDF18:
		return t.MessageExtendedSquitter
	case *messages.MessageDF20:
		return t.MessageCommB
	case *messages.MessageDF21:
		return t.MessageCommB
	case *messages.MessageDF24:
		return t.MessageCommD
	}
	return nil
}

// ReadDirect reads the content of a register in a given layout, without recognition.
func ReadDirect(typ string, b []byte) (m interface{}, err error, p string) {
	p = Guard(func() {
		switch typ {
		case "NoMessageAvailable":
			m, err = bds00.ReadNoMessageAvailable(b)
		case "Status":
			m, err = bds07.ReadStatus(b)
		case "DataLinkCapabilityReport":
			m, err = bds10.ReadDataLinkCapabilityReport(b)
		case "CommonUsageGICBCapabilityReport":
			m, err = bds17.ReadCommonUsageGICBCapabilityReport(b)
		case "AircraftIdentification":
			m, err = bds20.ReadAircraftIdentification(b)
		case "ACASResolutionAdvisory":
			m, err = bds30.ReadACASResolutionAdvisory(b)
		case "SelectedVerticalIntention":
			m, err = bds40.ReadSelectedVerticalIntention(b)
		case "TrackAndTurnReport":
			m, err = bds50.ReadTrackAndTurnReport(b)
		case "HeadingAndTrackReport":
			m, err = bds60.ReadHeadingAndSpeedReport(b)
		case "MeteorologicalRoutineAirReportV1":
			m, err = bds44.ReadMeteorologicalRoutineAirReportV1(b)
		case "MeteorologicalRoutineAirReportV2":
			m, err = bds44.ReadMeteorologicalRoutineAirReportV2(b)
		case "MeteorologicalHazardReportV1":
			m, err = bds45.ReadMeteorologicalHazardReportV1(b)
		case "MeteorologicalRoutineAirReportV0":
			m, err = bds44.ReadMeteorologicalRoutineAirReportV0(b)
		case "MeteorologicalHazardReportV0":
			m, err = bds45.ReadMeteorologicalHazardReportV0(b)
		default:
			err = fmt.Errorf("no direct reader of %s", typ)
		}
	})
	return
}
