// Code generated by tools/mkentries.py. DO NOT EDIT.

package sut

import (
	acas_ra "github.com/twuillemin/modes/pkg/acas/ra"
	adsb_airborne_position "github.com/twuillemin/modes/pkg/adsb/airborne_position"
	adsb_airborne_velocity "github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	adsb_aircraft_identification_and_category "github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	adsb_aircraft_operational_status "github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	adsb_aircraft_status "github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	adsb_no_position_information "github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsb_reader "github.com/twuillemin/modes/pkg/adsb/reader"
	adsb_surface_position "github.com/twuillemin/modes/pkg/adsb/surface_position"
	adsb_target_state_and_status "github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	bds00 "github.com/twuillemin/modes/pkg/bds/bds00"
	bds05 "github.com/twuillemin/modes/pkg/bds/bds05"
	bds06 "github.com/twuillemin/modes/pkg/bds/bds06"
	bds07 "github.com/twuillemin/modes/pkg/bds/bds07"
	bds08 "github.com/twuillemin/modes/pkg/bds/bds08"
	bds09 "github.com/twuillemin/modes/pkg/bds/bds09"
	bds10 "github.com/twuillemin/modes/pkg/bds/bds10"
	bds17 "github.com/twuillemin/modes/pkg/bds/bds17"
	bds20 "github.com/twuillemin/modes/pkg/bds/bds20"
	bds30 "github.com/twuillemin/modes/pkg/bds/bds30"
	bds40 "github.com/twuillemin/modes/pkg/bds/bds40"
	bds44 "github.com/twuillemin/modes/pkg/bds/bds44"
	bds45 "github.com/twuillemin/modes/pkg/bds/bds45"
	bds50 "github.com/twuillemin/modes/pkg/bds/bds50"
	bds60 "github.com/twuillemin/modes/pkg/bds/bds60"
	bds61 "github.com/twuillemin/modes/pkg/bds/bds61"
	bds62 "github.com/twuillemin/modes/pkg/bds/bds62"
	bds65 "github.com/twuillemin/modes/pkg/bds/bds65"
	modes_reader "github.com/twuillemin/modes/pkg/modes/reader"

	"github.com/twuillemin/modes/pkg/adsb"
)

// In is what an entry point may take besides the bytes.
type In struct {
	V    adsb.ADSBVersion
	A, C bool
}

// Entry is one entry point of the library.
type Entry struct {
	Name string
	Call func(in In, b []byte) (interface{}, error)
}

// Entries are the readers of single messages.
var Entries = []Entry{
	{"acas/ra.ReadResolutionAdvisory", func(in In, b []byte) (interface{}, error) { return acas_ra.ReadResolutionAdvisory(b) }},
	{"adsb/airborne_position.ReadAirbornePosition", func(in In, b []byte) (interface{}, error) {
		return adsb_airborne_position.ReadAirbornePosition(in.V, b, in.A)
	}},
	{"adsb/airborne_position.ReadAirbornePositionType0", func(in In, b []byte) (interface{}, error) {
		return adsb_airborne_position.ReadAirbornePositionType0(in.V, b)
	}},
	{"adsb/airborne_position.ReadAirbornePositionV0", func(in In, b []byte) (interface{}, error) { return adsb_airborne_position.ReadAirbornePositionV0(b) }},
	{"adsb/airborne_position.ReadAirbornePositionV1", func(in In, b []byte) (interface{}, error) {
		return adsb_airborne_position.ReadAirbornePositionV1(b, in.A)
	}},
	{"adsb/airborne_position.ReadAirbornePositionV2", func(in In, b []byte) (interface{}, error) {
		return adsb_airborne_position.ReadAirbornePositionV2(b, in.A)
	}},
	{"adsb/airborne_velocity.ReadAirborneVelocity", func(in In, b []byte) (interface{}, error) {
		return adsb_airborne_velocity.ReadAirborneVelocity(in.V, b)
	}},
	{"adsb/aircraft_identification_and_category.ReadAircraftIdentificationAndCategory", func(in In, b []byte) (interface{}, error) {
		return adsb_aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(in.V, b)
	}},
	{"adsb/aircraft_operational_status.ReadAircraftOperationalStatus", func(in In, b []byte) (interface{}, error) {
		return adsb_aircraft_operational_status.ReadAircraftOperationalStatus(in.V, b)
	}},
	{"adsb/aircraft_status.ReadAircraftStatus", func(in In, b []byte) (interface{}, error) { return adsb_aircraft_status.ReadAircraftStatus(in.V, b) }},
	{"adsb/no_position_information.ReadNoPositionInformation", func(in In, b []byte) (interface{}, error) {
		return adsb_no_position_information.ReadNoPositionInformation(in.V, b)
	}},
	{"adsb/reader.ReadADSBMessage", func(in In, b []byte) (interface{}, error) { return adsb_reader.ReadADSBMessage(in.V, in.A, in.C, b) }},
	{"adsb/surface_position.ReadSurfacePosition", func(in In, b []byte) (interface{}, error) {
		return adsb_surface_position.ReadSurfacePosition(in.V, b, in.A, in.C)
	}},
	{"adsb/surface_position.ReadSurfacePositionV0", func(in In, b []byte) (interface{}, error) { return adsb_surface_position.ReadSurfacePositionV0(b) }},
	{"adsb/surface_position.ReadSurfacePositionV1", func(in In, b []byte) (interface{}, error) {
		return adsb_surface_position.ReadSurfacePositionV1(b, in.A)
	}},
	{"adsb/surface_position.ReadSurfacePositionV2", func(in In, b []byte) (interface{}, error) {
		return adsb_surface_position.ReadSurfacePositionV2(b, in.A, in.C)
	}},
	{"adsb/target_state_and_status.ReadTargetStateAndStatus", func(in In, b []byte) (interface{}, error) {
		return adsb_target_state_and_status.ReadTargetStateAndStatus(in.V, b)
	}},
	{"bds/bds00.ReadNoMessageAvailable", func(in In, b []byte) (interface{}, error) { return bds00.ReadNoMessageAvailable(b) }},
	{"bds/bds05.ReadAirbornePosition", func(in In, b []byte) (interface{}, error) { return bds05.ReadAirbornePosition(b) }},
	{"bds/bds06.ReadSurfacePosition", func(in In, b []byte) (interface{}, error) { return bds06.ReadSurfacePosition(b) }},
	{"bds/bds07.ReadStatus", func(in In, b []byte) (interface{}, error) { return bds07.ReadStatus(b) }},
	{"bds/bds08.ReadAircraftIdentificationAndCategory", func(in In, b []byte) (interface{}, error) { return bds08.ReadAircraftIdentificationAndCategory(b) }},
	{"bds/bds09.ReadAirborneVelocity", func(in In, b []byte) (interface{}, error) { return bds09.ReadAirborneVelocity(b) }},
	{"bds/bds09.ReadAirborneVelocityAirSpeedNormal", func(in In, b []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedNormal(b) }},
	{"bds/bds09.ReadAirborneVelocityAirSpeedSupersonic", func(in In, b []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedSupersonic(b) }},
	{"bds/bds09.ReadAirborneVelocityGroundSpeedNormal", func(in In, b []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedNormal(b) }},
	{"bds/bds09.ReadAirborneVelocityGroundSpeedSupersonic", func(in In, b []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedSupersonic(b) }},
	{"bds/bds10.ReadDataLinkCapabilityReport", func(in In, b []byte) (interface{}, error) { return bds10.ReadDataLinkCapabilityReport(b) }},
	{"bds/bds17.ReadCommonUsageGICBCapabilityReport", func(in In, b []byte) (interface{}, error) { return bds17.ReadCommonUsageGICBCapabilityReport(b) }},
	{"bds/bds20.ReadAircraftIdentification", func(in In, b []byte) (interface{}, error) { return bds20.ReadAircraftIdentification(b) }},
	{"bds/bds30.ReadACASResolutionAdvisory", func(in In, b []byte) (interface{}, error) { return bds30.ReadACASResolutionAdvisory(b) }},
	{"bds/bds40.ReadSelectedVerticalIntention", func(in In, b []byte) (interface{}, error) { return bds40.ReadSelectedVerticalIntention(b) }},
	{"bds/bds44.ReadMeteorologicalRoutineAirReport", func(in In, b []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReport(b) }},
	{"bds/bds44.ReadMeteorologicalRoutineAirReportV0", func(in In, b []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV0(b) }},
	{"bds/bds44.ReadMeteorologicalRoutineAirReportV1", func(in In, b []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV1(b) }},
	{"bds/bds44.ReadMeteorologicalRoutineAirReportV2", func(in In, b []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV2(b) }},
	{"bds/bds45.ReadMeteorologicalHazardReport", func(in In, b []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReport(b) }},
	{"bds/bds45.ReadMeteorologicalHazardReportV0", func(in In, b []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV0(b) }},
	{"bds/bds45.ReadMeteorologicalHazardReportV1", func(in In, b []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV1(b) }},
	{"bds/bds50.ReadTrackAndTurnReport", func(in In, b []byte) (interface{}, error) { return bds50.ReadTrackAndTurnReport(b) }},
	{"bds/bds60.ReadHeadingAndSpeedReport", func(in In, b []byte) (interface{}, error) { return bds60.ReadHeadingAndSpeedReport(b) }},
	{"bds/bds61.ReadAircraftStatus", func(in In, b []byte) (interface{}, error) { return bds61.ReadAircraftStatus(b) }},
	{"bds/bds61.ReadAircraftStatusACAS", func(in In, b []byte) (interface{}, error) { return bds61.ReadAircraftStatusACAS(b) }},
	{"bds/bds61.ReadAircraftStatusEmergency", func(in In, b []byte) (interface{}, error) { return bds61.ReadAircraftStatusEmergency(b) }},
	{"bds/bds61.ReadAircraftStatusNoInformation", func(in In, b []byte) (interface{}, error) { return bds61.ReadAircraftStatusNoInformation(b) }},
	{"bds/bds62.ReadTargetStateAndStatus", func(in In, b []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus(b) }},
	{"bds/bds62.ReadTargetStateAndStatus0", func(in In, b []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus0(b) }},
	{"bds/bds62.ReadTargetStateAndStatus1", func(in In, b []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus1(b) }},
	{"bds/bds65.ReadAircraftOperationalStatus", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatus(b) }},
	{"bds/bds65.ReadAircraftOperationalStatusADSB0", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusADSB0(b) }},
	{"bds/bds65.ReadAircraftOperationalStatusAirborneADSB1", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB1(b) }},
	{"bds/bds65.ReadAircraftOperationalStatusAirborneADSB2", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB2(b) }},
	{"bds/bds65.ReadAircraftOperationalStatusSurfaceADSB1", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB1(b) }},
	{"bds/bds65.ReadAircraftOperationalStatusSurfaceADSB2", func(in In, b []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB2(b) }},
	{"modes/reader.ReadMessage", func(in In, b []byte) (interface{}, error) { return modes_reader.ReadMessage(b) }},
}
