From d00f6b4a5102d1529a69997e72273f81301bc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 01/43] fix: use the two leading bits of the threat altitude of
 a resolution advisory at their place

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From 66cd55a1412a41492471d0018d6a79d88e90ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 02/43] fix: read the last bit of the threat range of a
 resolution advisory

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From 89193169e22fc7ed465169ce06c9d85e91e5c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/43] fix: render the sense of a resolution advisory, not
 always Upward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From 3180586a02c6e831547c0776ddd0aa267624be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 04/43] fix: check all the reserved bits 4 to 8 of the Comm-B
 status register

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From 27f10a02b3211ccb09d6372fa1f3d66091ecdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 05/43] fix: read the surveillance identifier capability at bit
 35 of register 1,0

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 71524d4861feca692f5b37ec2da8a1b873271018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 06/43] fix: read the MCP/FCU and FMS selected altitudes of
 register 4,0 at their own bits

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 872b995150127b31dbd0689454340229bfe483e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 07/43] fix: read the status of the barometric pressure setting
 of register 4,0 at bit 27

---
 pkg/bds/bds40/fields/barometric_pressure.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..3efc9ac 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,11 +3,17 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 1
+
+	// Without status nor value there is no pressure
+	if !status && allBits == 0 {
+		return false, 0
+	}
+
 	pressure := (float32(allBits) * 0.1) + 800
 
 	return status, pressure
-- 
2.43.0


From 7581a03f81d583336e5e2bec10c1d601d75b88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 08/43] fix: read the nine bits of the wind speed of register
 4,4

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From d1420dd7223c60f27271a9928ba00813b25fab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 09/43] fix: read the sign of the static air temperature of
 register 4,4 (Annex A) at bit 24

---
 pkg/bds/bds44/fields/static_air_temperature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..d856061 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,8 +10,8 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
-		temperature = temperature - 128
+	if (data[2] & 0x01) != 0 {
+		temperature = temperature - 256
 	}
 
 	return temperature
-- 
2.43.0


From 729da92019bee6c7d0d46e770b0eb9d426505529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 10/43] fix: read a routine meteorological report as V0 when it
 makes no sense as V2

---
 pkg/bds/bds44/meteorological_routine_air_report.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/meteorological_routine_air_report.go b/pkg/bds/bds44/meteorological_routine_air_report.go
index b680d83..5294b40 100644
--- a/pkg/bds/bds44/meteorological_routine_air_report.go
+++ b/pkg/bds/bds44/meteorological_routine_air_report.go
@@ -26,10 +26,10 @@ func ReadMeteorologicalRoutineAirReport(data []byte) (MeteorologicalRoutineAirRe
 
 	source := fields.ReadSource(data)
 	switch source {
-	// As a Source is defined, it may be a V2 or V0 format. So try the V2 first and if it cannot be read, try the V0.
+	// As a Source is defined, it may be a V2 or V0 format. So try the V2 first and if it cannot be read as such, try the V0.
 	case fields.SourceINS, fields.SourceGNSS, fields.SourceDMEDME, fields.SourceVORDME:
 		message, err := ReadMeteorologicalRoutineAirReportV2(data)
-		if err == nil {
+		if err == nil && message.CheckCoherency() == nil {
 			return message, nil
 		}
 		return ReadMeteorologicalRoutineAirReportV0(data)
-- 
2.43.0


From cde234887370a616ec8ac2cc16af55ebf30ec88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 11/43] fix: read a meteorological hazard report as V0 when it
 makes no sense as V1

---
 pkg/bds/bds45/meteorological_hazard_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds45/meteorological_hazard_report.go b/pkg/bds/bds45/meteorological_hazard_report.go
index 0ef3d19..c022bee 100644
--- a/pkg/bds/bds45/meteorological_hazard_report.go
+++ b/pkg/bds/bds45/meteorological_hazard_report.go
@@ -20,7 +20,7 @@ func ReadMeteorologicalHazardReport(data []byte) (MeteorologicalHazardReport, er
 	}
 
 	messageV1, err := ReadMeteorologicalHazardReportV1(data)
-	if err == nil {
+	if err == nil && messageV1.CheckCoherency() == nil {
 		return messageV1, err
 	}
 
-- 
2.43.0


From e52ed0b4907aeb1cb57c7169eb6a1a82c7649cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 12/43] fix: check the reserved bits 17 to 56 of an aircraft
 status without information

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From 5af1458b35d8075c4453b259e9f95dae3b29c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 13/43] fix: read the low bits of the target heading or track
 angle from byte 5

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From a32a8f4652ab10dcdae54a92ccd6bc36d28a9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 14/43] fix: read the selected altitude type of a target state
 at bit 9

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From 7e918eed24a6e990df3ef6ecfe0dec25f4e2c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 15/43] fix: read the selected heading as two's complement

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 82c6a8469e7627fe29f2b5a611ee6bc68e67e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 16/43] fix: report version 2 for a version 2 surface
 operational status

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From d2207a726dae50138f3ac51d0c6e75f76fe3d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 17/43] fix: surface position type 7 without supplement has a
 radius below 0.1 NM

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From e4101a7e882f64f4cbd8bce7973a2317e29c1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 18/43] fix: keep the status bits and the barometric source of
 a type 0 airborne position

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..50bdd29 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,9 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18. The
+	// surveillance status and the antenna flag are kept.
+	dataTmp := []byte{0x90 | (data[0] & 0x07), data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From f8a18249aa174466757cced5b4c340278e93e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 19/43] fix: refuse a pair of airborne positions that gives a
 latitude beyond the poles

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..c3bf5f9 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// A latitude beyond the poles cannot come from two messages of the same aircraft
+	if latitudeEven > 90 || latitudeOdd > 90 {
+		return 0, 0, errors.New("the messages do not give a valid latitude")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From cc32ab76e68baf16a2dc3fde9ca67ab25c5dcea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 20/43] fix: return the longitude of a local position between
 -180 and 180 degrees

---
 pkg/geo/cpr_airborne_local_position.go | 2 +-
 pkg/geo/cpr_common.go                  | 5 +++++
 pkg/geo/cpr_surface_local_position.go  | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/geo/cpr_airborne_local_position.go b/pkg/geo/cpr_airborne_local_position.go
index 94f4a9d..8322a85 100644
--- a/pkg/geo/cpr_airborne_local_position.go
+++ b/pkg/geo/cpr_airborne_local_position.go
@@ -44,7 +44,7 @@ func GetCPRAirborneLocalPosition(
 	m := math.Floor(referenceLongitude/dLon) + math.Floor(mod(referenceLongitude, dLon)/dLon-lonCPR+0.5)
 
 	// Knowing the longitude zone index, the longitude of the new position is
-	longitude := dLon * (m + lonCPR)
+	longitude := normalizeLongitude(dLon * (m + lonCPR))
 
 	return latitude, longitude
 }
diff --git a/pkg/geo/cpr_common.go b/pkg/geo/cpr_common.go
index fa5ae44..4e692c8 100644
--- a/pkg/geo/cpr_common.go
+++ b/pkg/geo/cpr_common.go
@@ -13,6 +13,11 @@ func mod(x float64, y float64) float64 {
 	return x - y*math.Floor(x/y)
 }
 
+// normalizeLongitude brings a longitude in the range [-180,+180[
+func normalizeLongitude(longitude float64) float64 {
+	return mod(longitude+180, 360) - 180
+}
+
 // getNumberOfLongitude computes the number of longitude zones at a latitude
 //
 // Params:
diff --git a/pkg/geo/cpr_surface_local_position.go b/pkg/geo/cpr_surface_local_position.go
index 3c31c76..81673f6 100644
--- a/pkg/geo/cpr_surface_local_position.go
+++ b/pkg/geo/cpr_surface_local_position.go
@@ -45,7 +45,7 @@ func GetCPRSurfaceLocalPosition(
 	m := math.Floor(referenceLongitude/dLon) + math.Floor(mod(referenceLongitude, dLon)/dLon-lonCPR+0.5)
 
 	// Knowing the longitude zone index, the longitude of the new position is
-	longitude := dLon * (m + lonCPR)
+	longitude := normalizeLongitude(dLon * (m + lonCPR))
 
 	return latitude, longitude
 }
-- 
2.43.0


From 78b7d3636a80b1afdaa77f8b68d54d31cf8e0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 21/43] fix: take the latitude of a surface position nearest to
 the reference, also across the equator

---
 pkg/geo/cpr_surface_global_position.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..f50c46f 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,15 +43,11 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
-	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
-		latitudeEvenFixed = latitudeEvenFixed - 90
-	}
-
-	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
-		latitudeOddFixed = latitudeOddFixed - 90
+	// The latitudes are known modulo 90 degrees. The solution is the one nearest to the reference
+	latitudeEvenFixed := latitudeEven + 90*math.Round((referenceLatitude-latitudeEven)/90)
+	latitudeOddFixed := latitudeOdd + 90*math.Round((referenceLatitude-latitudeOdd)/90)
+	if math.Abs(latitudeEvenFixed) > 90 || math.Abs(latitudeOddFixed) > 90 {
+		return 0, 0, errors.New("the messages do not give a valid latitude for the reference position")
 	}
 
 	// Before proceeding to the quadrantLongitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
-- 
2.43.0


From 103c7345b3c745fbc5cfcd64990272afe1891f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 22/43] fix: take the longitude of a surface position nearest
 to the reference, also across the antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index f50c46f..c5da9c9 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -99,12 +99,12 @@ func GetCPRSurfaceGlobalPosition(
 
 	longitudesCorrected := [4]float64{}
 	for i, longitude := range longitudes {
-		longitudesCorrected[i] = mod((longitude+180), 360) - 180
+		longitudesCorrected[i] = normalizeLongitude(longitude)
 	}
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(normalizeLongitude(referenceLongitude - longitudeCorrected))
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From 6fb038f0f2bddb62a051b9bd400da4352188a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 23/43] fix: refuse a reference position that is not a number
 instead of panicking

---
 pkg/geo/cpr_surface_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index c5da9c9..7f5465a 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -28,6 +28,11 @@ func GetCPRSurfaceGlobalPosition(
 	referenceLongitude float64,
 ) (float64, float64, error) {
 
+	// Without a real reference position, there is no nearest solution
+	if math.IsNaN(referenceLatitude) || math.IsInf(referenceLatitude, 0) || math.IsNaN(referenceLongitude) || math.IsInf(referenceLongitude, 0) {
+		return 0, 0, errors.New("the reference position is not valid")
+	}
+
 	// it is possible to extract the encoded CPR latitude and quadrantLongitude binary and convert them to decimal format.
 	// Then, they are divided by the 2^17, representing the fractions of the positions within the latitude and
 	// quadrantLongitude grids
-- 
2.43.0


From 00ad9f65b1f596f0aaf0117c05ac730bd4f959e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 24/43] fix: compute the ground distance of antipodal positions

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..83cd158 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// Rounding must not bring the value out of range for (almost) antipodal positions
+	a = math.Min(a, 1)
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


From 3f6130f7a74c4b87cc6c779cba8303a1cf37cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 25/43] fix: do not keep the buffer of the caller in the
 decoded message

---
 pkg/modes/reader/reader.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/modes/reader/reader.go b/pkg/modes/reader/reader.go
index e49ec38..cc83b1a 100644
--- a/pkg/modes/reader/reader.go
+++ b/pkg/modes/reader/reader.go
@@ -19,11 +19,14 @@ func ReadMessage(message []byte) (messages.ModeSMessage, error) {
 		return nil, errors.New("a Mode S message must be 7 or 14 bytes long")
 	}
 
+	// The decoded message keeps its own copy of the data, so that the caller may reuse its buffer
+	data := append([]byte(nil), message...)
+
 	messageData := common.MessageData{
-		DownLinkFormat: (message[0] & 0xF8) >> 3,
-		FirstField:     message[0] & 0x07,
-		Payload:        message[1 : len(message)-3],
-		Parity:         message[len(message)-3:],
+		DownLinkFormat: (data[0] & 0xF8) >> 3,
+		FirstField:     data[0] & 0x07,
+		Payload:        data[1 : len(data)-3],
+		Parity:         data[len(data)-3:],
 	}
 
 	var modeS messages.ModeSMessage
-- 
2.43.0


From d3b5e4b5db8d46473b12479f36dca7363d713ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 26/43] fix: compare ground speed and true air speed only when
 both are available

---
 pkg/bds/bds50/track_and_turn_report.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/bds/bds50/track_and_turn_report.go b/pkg/bds/bds50/track_and_turn_report.go
index 080639b..05358b2 100644
--- a/pkg/bds/bds50/track_and_turn_report.go
+++ b/pkg/bds/bds50/track_and_turn_report.go
@@ -95,9 +95,12 @@ func (message TrackAndTurnReport) CheckCoherency() error {
 		return errors.New("the true air speed is too high (above 500 knots)")
 	}
 
-	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
-	if (speedDifference < -200) || (speedDifference > 200) {
-		return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
+	// The speeds can only be compared if both are given
+	if message.GroundSpeedStatus && message.TrueAirSpeedStatus {
+		speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
+		if (speedDifference < -200) || (speedDifference > 200) {
+			return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
+		}
 	}
 
 	return nil
-- 
2.43.0


From e11d89fa2ee2ddeac91092c35df35a7ba339b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 27/43] fix: end the message about an invalid hexadecimal text
 with a new line

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 07d2212..9dc139d 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -89,7 +89,7 @@ func processSingleLine(str string, readerLevel adsb.ADSBVersion) {
 
 	binaryData, err := hex.DecodeString(str)
 	if err != nil {
-		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v", err)
+		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v\n", err)
 		return
 	}
 
-- 
2.43.0


From a713bc055f3cac28b1eade921c6e7c02fa1737f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 28/43] fix: accept options before the frame given on the
 command line

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 9dc139d..c394b66 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -44,8 +44,8 @@ func main() {
 		return
 	}
 
-	if len(os.Args) > 1 {
-		processSingleLine(os.Args[1], adsbReaderLevel)
+	if flag.NArg() > 0 {
+		processSingleLine(flag.Arg(0), adsbReaderLevel)
 	} else {
 		fmt.Printf("No data provided")
 	}
-- 
2.43.0


From c269092d0bec5f4103e5661152807f13fa7e0362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 29/43] fix: show the Mode A code in the text of an emergency
 status

---
 pkg/bds/bds61/aircraft_status_emergency.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 9e3015d..4f399c1 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -40,10 +40,12 @@ func (message AircraftStatusEmergency) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                   %v\n"+
 		"Subtype:                   %v\n"+
-		"Emergeny State:            %v",
+		"Emergeny State:            %v\n"+
+		"Mode A Code:               %04X",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-		message.EmergencyPriorityStatus.ToString())
+		message.EmergencyPriorityStatus.ToString(),
+		message.ModeACode)
 }
 
 // ReadAircraftStatusEmergency reads a AircraftStatus / Subtype 1 (Emergency/priority status)
-- 
2.43.0


From 2ea79fa9b6bdbb7a3c5bbb328e863a398d0dfc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 30/43] fix: show the continuation flag in the text of a data
 link capability report

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..22f106f 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability:              %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From 503822315d2fbd8ec809ac943301604cce2df4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 31/43] fix: refuse position messages of the wrong length
 instead of panicking

---
 pkg/adsb/airborne_position/airborne_position.go             | 4 ++++
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 4 ++++
 pkg/adsb/no_position_information/no_position_information.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..95546c1 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,6 +8,10 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	if data[0] == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 50bdd29..85327aa 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,6 +36,10 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18. The
 	// surveillance status and the antenna flag are kept.
 	dataTmp := []byte{0x90 | (data[0] & 0x07), data[1], data[2], data[3], data[4], data[5], data[6]}
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..af8002f 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -37,6 +37,10 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From 16e8401b550050f13e9d51f186a626a2d7921f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 32/43] fix: show threat bearings above 252 degrees instead of
 overflowing a byte

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From dde77622823c1148ad081ee78310aa77bbc475d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 33/43] fix: flight status 4 and 5 do not tell the vertical
 status, and 5 is no alert

---
 pkg/modes/fields/flight_status.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/modes/fields/flight_status.go b/pkg/modes/fields/flight_status.go
index c852db0..d4c5f7c 100644
--- a/pkg/modes/fields/flight_status.go
+++ b/pkg/modes/fields/flight_status.go
@@ -25,9 +25,9 @@ const (
 	FlightStatusAlertNoSPIAirborne FlightStatus = 2
 	// FlightStatusAlertNoSPIOnTheGround signifies alert and no SPI, aircraft is on the ground
 	FlightStatusAlertNoSPIOnTheGround FlightStatus = 3
-	// FlightStatusAlertSPIAirborne signifies alert and SPI, aircraft is airborne
+	// FlightStatusAlertSPIAirborne signifies alert and SPI, aircraft is airborne or on the ground
 	FlightStatusAlertSPIAirborne FlightStatus = 4
-	// FlightStatusAlertSPIOnTheGround signifies alert and SPI, aircraft is on the ground
+	// FlightStatusAlertSPIOnTheGround signifies no alert and SPI, aircraft is airborne or on the ground
 	FlightStatusAlertSPIOnTheGround FlightStatus = 5
 	// FlightStatusReserved is reserved
 	FlightStatusReserved FlightStatus = 6
@@ -53,9 +53,9 @@ func (flightStatus FlightStatus) ToString() string {
 	case FlightStatusAlertNoSPIOnTheGround:
 		return "3 - Alert, No SPI, On The Ground"
 	case FlightStatusAlertSPIAirborne:
-		return "4 - Alert, SPI, Airborne"
+		return "4 - Alert, SPI, Airborne Or On The Ground"
 	case FlightStatusAlertSPIOnTheGround:
-		return "5 - Alert, SPI, On The Ground"
+		return "5 - No Alert, SPI, Airborne Or On The Ground"
 	case FlightStatusReserved:
 		return "6 - Reserved"
 	case FlightStatusNotAssigned:
-- 
2.43.0


From 0b09ded221467e7c5e5236e68e779eae89b4a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 34/43] fix: show the lack of transmission rate capability as
 such

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From 97d91fea42bbfdf5a31d6f4de0820621c13f3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 35/43] fix: show the code and the horizontal limit of a
 navigation uncertainty category

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
-- 
2.43.0


From ee013dd81221625be007aa01c4b245bce236a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 36/43] fix: show the code of accuracy, integrity and
 subnetwork version fields, not always that of another value

---
 pkg/bds/bds10/fields/modes_subnetwork_version.go    | 8 ++++----
 pkg/bds/bds62/fields/source_integrity_level.go      | 4 ++--
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..ea6353a 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -25,11 +25,11 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 	case GVAUnknownOrGreaterThan150m:
 		return "0 - Unknown or GVA >= 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From c834775294769123de6cb9adc17937968c8b7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 37/43] fix: show the width of aircraft of length and width
 code 10

---
 pkg/bds/bds65/fields/length_width.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/fields/length_width.go b/pkg/bds/bds65/fields/length_width.go
index 23b3bde..0fb6708 100644
--- a/pkg/bds/bds65/fields/length_width.go
+++ b/pkg/bds/bds65/fields/length_width.go
@@ -28,7 +28,7 @@ const (
 	LWLength55Width45 LengthWidth = 8
 	// LWLength55Width52 indicates Length lower than 55 meters and Width lower than 52 meters
 	LWLength55Width52 LengthWidth = 9
-	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59 meters
+	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59.5 meters
 	LWLength65Width59Point5 LengthWidth = 10
 	// LWLength65Width67 indicates Length lower than 65 meters and Width lower than 67 meters
 	LWLength65Width67 LengthWidth = 11
@@ -67,7 +67,7 @@ func (status LengthWidth) ToString() string {
 	case LWLength55Width52:
 		return "9 - Length lower than 55 meters and Width lower than 52 meters"
 	case LWLength65Width59Point5:
-		return "10 - Length lower than 65 meters and Width lower than 59 meters"
+		return "10 - Length lower than 65 meters and Width lower than 59.5 meters"
 	case LWLength65Width67:
 		return "11 - Length lower than 65 meters and Width lower than 67 meters"
 	case LWLength75Width72Point5:
-- 
2.43.0


From eb093e4fe35158cde86901ed6bbdae9bc82d5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 38/43] fix: show the track angle or heading of a surface
 operational status as such, not as NIC Baro

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go | 2 +-
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..12c0f8b 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -52,7 +52,7 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..012c070 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -54,7 +54,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 		"Navigational Accuracy Category Position: %v\n"+
 		"Source Integrity ReaderLevel:            %v\n"+
 		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0


From 8942786f153644dd0e717db5cdd6443e242ff23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 39/43] fix: name VOR/DME as the source of a meteorological
 report

---
 pkg/bds/bds44/fields/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/source.go b/pkg/bds/bds44/fields/source.go
index 682117e..ebafbae 100644
--- a/pkg/bds/bds44/fields/source.go
+++ b/pkg/bds/bds44/fields/source.go
@@ -33,7 +33,7 @@ func (source Source) ToString() string {
 	case SourceDMEDME:
 		return "3 - DME/DME"
 	case SourceVORDME:
-		return "4 - VOR/DMS"
+		return "4 - VOR/DME"
 	default:
 		return fmt.Sprintf("%v - Unknown code", source)
 	}
-- 
2.43.0


From de8805dc901a0e68d6da44d82f5f10cf06efea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 40/43] fix: a routine air report with an unavailable
 turbulence given is not coherent

---
 pkg/bds/bds44/meteorological_routine_air_report_v0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bds/bds44/meteorological_routine_air_report_v0.go b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
index 6167636..936c105 100644
--- a/pkg/bds/bds44/meteorological_routine_air_report_v0.go
+++ b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
@@ -89,6 +89,10 @@ func (message MeteorologicalRoutineAirReportV0) CheckCoherency() error {
 		return errors.New("the average static pressure status is set to false, but a average static pressure value is given")
 	}
 
+	if !message.TurbulenceStatus && message.Turbulence != fields.TLNil {
+		return errors.New("the turbulence status is set to false, but a turbulence value is given")
+	}
+
 	if !message.HumidityStatus && message.Humidity != 0 {
 		return errors.New("the humidity status is set to false, but a humidity value is given")
 	}
-- 
2.43.0


From 348b61c17e83d8db97186ea739ebc45f8af81cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 41/43] fix: an aircraft status of a downed aircraft is
 coherent

---
 pkg/bds/bds61/aircraft_status_emergency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 4f399c1..7773826 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -28,7 +28,7 @@ func (message AircraftStatusEmergency) GetRegister() register.Register {
 // CheckCoherency checks that the data of the message are somehow coherent, such as for example: no Reserved values, etc.
 func (message AircraftStatusEmergency) CheckCoherency() error {
 
-	if message.EmergencyPriorityStatus > 5 {
+	if message.EmergencyPriorityStatus > 6 {
 		return errors.New("field EmergencyPriorityStatus is a Reserved value")
 	}
 
-- 
2.43.0


From 9c20e1c15fe1b19fde034e22669b558a050c389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 42/43] fix: the readers of messages of type code 0 refuse
 other type codes

---
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 5 +++++
 pkg/adsb/no_position_information/no_position_information.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 85327aa..75746bd 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -40,6 +40,11 @@ func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*Airb
 		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
 	}
 
+	formatTypeCode := (data[0] & 0xF8) >> 3
+	if formatTypeCode != 0 {
+		return nil, fmt.Errorf("the field FormatTypeCode must be 0, got %v", formatTypeCode)
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18. The
 	// surveillance status and the antenna flag are kept.
 	dataTmp := []byte{0x90 | (data[0] & 0x07), data[1], data[2], data[3], data[4], data[5], data[6]}
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index af8002f..a5979e6 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -41,6 +41,11 @@ func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPo
 		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
 	}
 
+	formatTypeCode := (data[0] & 0xF8) >> 3
+	if formatTypeCode != 0 {
+		return nil, fmt.Errorf("the field FormatTypeCode must be 0, got %v", formatTypeCode)
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From 93df01774295271aaab8840e5a00d7119a2ad230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 43/43] fix: the integrity check refuses data that are too
 short for the message

---
 pkg/modes/reader/crc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/modes/reader/crc.go b/pkg/modes/reader/crc.go
index e9a7ed3..822fc42 100644
--- a/pkg/modes/reader/crc.go
+++ b/pkg/modes/reader/crc.go
@@ -30,7 +30,13 @@ func CheckCRC(
 	allowedAddresses map[common.ICAOAddress]bool,
 	allowedInterrogatorIdentifiers map[common.ICAOAddress]bool) (common.ICAOAddress, error) {
 
-	switch message.GetDownLinkFormat() {
+	// The data must be those of a message, and long enough for its format
+	downLinkFormat := message.GetDownLinkFormat()
+	if len(data) != 7 && len(data) != 14 || len(data) != 14 && (downLinkFormat == 17 || downLinkFormat == 18) {
+		return 0, fmt.Errorf("the data for a message at format %v can not be %v bytes long", downLinkFormat, len(data))
+	}
+
+	switch downLinkFormat {
 	case 11:
 		return checkCRCDF11(data, allowedInterrogatorIdentifiers)
 	case 17, 18:
-- 
2.43.0

