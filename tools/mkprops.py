import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=s,meaning=s) for s in state],observe_at=observe,hook_needed=hook)))
p("C01","Corrupted frames are rejected and clean frames are attributed to their sender",
 "A frame that arrives undamaged always passes the integrity check, which returns exactly the address of the aircraft that sent it or, for an all-call reply, the interrogator code it answers. An extended squitter damaged by up to five bit errors, or by one error burst of at most 24 bits, never passes as an extended squitter. With a non-empty list of known addresses (or interrogator codes), a reply whose parity resolves to anything outside the list is rejected, and one inside it is accepted.",
 ["inputs","fault_sequences","histories"],
 "all frames of every supported downlink format, all sender addresses and interrogator codes, all allow-lists, all patterns of 1-5 bit errors and bursts <= 24 bits, in any order of arrival",
 "Tests check the CRC of a handful of recorded frames; the error-detection guarantee is over all error patterns on all frames (112 choose 5 patterns per frame) and over allow-lists of any content.",
 ["pkg/modes/reader/crc.go","pkg/modes/reader/reader.go","pkg/modes/messages/*.go"],
 [("CheckCRC","pkg/modes/reader/crc.go"),("computeParity","pkg/modes/reader/crc.go"),("ReadMessage","pkg/modes/reader/reader.go")],
 ["24-bit parity of the frame","allow-lists of addresses and interrogator codes"],
 ["address and error returned by the integrity check"])
p("C02","Any bytes give a result or an error, and never disturb the frames around them",
 "Whatever bytes reach a decoder (truncated, overlong, garbled, random or hostile), every decoding entry point returns either a usable message or an error: it never panics or hangs, and it never returns neither. The reader of one layout refuses a message of another length, type, subtype or version. Every message that is returned can be rendered as text, queried and checked for coherency without failing. A damaged or refused frame leaves no trace: the frames that follow decode exactly as if it had never arrived.",
 ["inputs","fault_sequences","histories"],
 "all byte strings of any length, at every entry point (Mode S, ADS-B at every version and supplement, Comm-B, resolution advisory, position decoding), in every sequence of damaged and clean frames",
 "Tests feed well-formed frames; the guarantee is over all 2^112 frames, all lengths and all sequences of bad and good input.",
 ["pkg/modes/reader/*.go","pkg/adsb/reader/reader.go","pkg/commb/reader.go","pkg/acas/ra/*.go","pkg/bds/**","pkg/geo/*.go"],
 [("ReadMessage","pkg/modes/reader/reader.go"),("ReadADSBMessage","pkg/adsb/reader/reader.go"),("ReadCommBMessage","pkg/commb/reader.go"),("ReadResolutionAdvisory","pkg/acas/ra/resolution_advisory.go")],
 ["none that may survive a call"],["returned message / error, panics, rendering of the message, decoding of the next frames"])
p("C03","Mode S replies decode to exactly what the transponder sent",
 "Every undamaged surveillance, all-call, air-air, extended squitter, military, Comm-B and extended-length frame decodes to the format it was sent in, with every header field (flight status, downlink request, utility message, capability, vertical status, cross-link, sensitivity level, reply information, control field, announced address, segment number) equal to the value the transponder put there. The message part carried inside it is handed on byte for byte, so an extended-length message can be reassembled from its segments whatever their order, loss or repetition. Formats and lengths that do not exist are refused.",
 ["inputs","histories","fault_sequences"],
 "all field values of DF0, 4, 5, 11, 16-21 and 24-31, all interleavings of replies from many aircraft, with loss, duplication, reordering and delay",
 "Tests sample one or two frames per format; the mapping must hold for every combination of header values and every mixture of aircraft.",
 ["pkg/modes/reader/reader.go","pkg/modes/messages/*.go","pkg/modes/fields/*.go","pkg/modes/common/*.go"],
 [("ReadMessage","pkg/modes/reader/reader.go"),("ParseDF*","pkg/modes/messages/"),("Read* header fields","pkg/modes/fields/")],
 ["header and payload bits of one frame"],["fields of the decoded message"])
p("C04","Altitude and identity codes read back as the values the aircraft reported",
 "Every altitude that an aircraft can encode, in 25-foot or in 100-foot (Gillham) increments, decodes to that altitude with the right increment, whichever frame carries it: air-air, surveillance or Comm-B reply, or airborne position squitter. Codes that denote no altitude (not available, metric, illegal Gillham patterns) are never turned into a number of feet. Every four-digit identity code decodes to the same four digits in every reply that carries it, the emergency squitter hands on the same code bits, and the emergency and special codes are recognised as such and no others are.",
 ["inputs","histories","fault_sequences"],
 "all 2^13 altitude codes in DF0/4/16/20, all 2^12 in airborne positions, all 4096 identity codes in DF5/21 and emergency status, over climbing and descending flights",
 "Tests check a few altitudes and squawks; a wrong bit in the Gillham or identity interleaving shows only for some codes, and the carriers must agree with each other at every point of a flight.",
 ["pkg/modes/fields/altitude_code.go","pkg/modes/fields/identity.go","pkg/bitutils/gillham.go","pkg/bds/bds05/fields/altitude.go","pkg/bds/bds61/fields/*.go"],
 [("ReadAltitudeCode","pkg/modes/fields/altitude_code.go"),("GillhamToAltitude","pkg/bitutils/gillham.go"),("ReadIdentityCode","pkg/modes/fields/identity.go"),("altitude","pkg/bds/bds05/fields/altitude.go")],
 ["13-bit and 12-bit codes in a frame"],["altitude, increment and identity of the decoded message"])
p("C05","Identification, position and velocity squitters report the aircraft's true state",
 "Every undamaged extended squitter decodes to the report that was sent: call sign and category, airborne or surface position report (surveillance status, antenna flag, altitude source, time flag, format flag and raw coordinates), movement and ground track, and airborne velocity by ground speed or air speed, subsonic or supersonic (direction, magnitude, heading, vertical rate, source and difference from barometric altitude). Numeric values equal the encoded quantity to within the resolution of the encoding, and 'not available', 'invalid' and 'beyond maximum' are reported as such, never as a number.",
 ["inputs","histories","fault_sequences"],
 "all type codes 0-22, all subtypes and all field values, at protocol versions 0, 1 and 2, for flights that turn, climb, accelerate, taxi, take off and land",
 "Tests decode a few recorded squitters; the mapping must hold for every value of every field, in particular at signs, zero, maximum and not-available codes.",
 ["pkg/adsb/reader/reader.go","pkg/adsb/airborne_velocity/*.go","pkg/adsb/airborne_position/*.go","pkg/adsb/surface_position/*.go","pkg/adsb/aircraft_identification_and_category/*.go","pkg/bds/bds05/**","pkg/bds/bds06/**","pkg/bds/bds08/**","pkg/bds/bds09/**"],
 [("ReadADSBMessage","pkg/adsb/reader/reader.go"),("bds05/06/08/09 readers","pkg/bds/")],["56-bit message of one squitter"],["fields and methods of the decoded message"])
p("C06","Status, intent and emergency squitters report what the aircraft declared",
 "Every undamaged aircraft status, target state and operational status squitter decodes, at the version it was sent in, to the declared emergency, selected altitude, heading and pressure setting, autopilot modes, capability classes, operational modes, aircraft size, antenna offset and accuracy, integrity and quality categories. Each value equals the one encoded to within the resolution of the encoding, and unavailable values are reported as such. The version announced by an operational status message is the version that the decoded message reports. An emergency status is checked as coherent for every defined emergency state, and not for a reserved one.",
 ["inputs","histories","fault_sequences"],
 "all type 28, 29 and 31 messages: all subtypes, all field values, versions 0, 1 and 2, airborne and surface",
 "Tests decode one frame per layout; each of some sixty bit fields must be read from its own place for all values, independent of its neighbours.",
 ["pkg/adsb/aircraft_status/*.go","pkg/adsb/target_state_and_status/*.go","pkg/adsb/aircraft_operational_status/*.go","pkg/bds/bds61/**","pkg/bds/bds62/**","pkg/bds/bds65/**"],
 [("ReadADSBMessage","pkg/adsb/reader/reader.go"),("bds61/62/65 readers","pkg/bds/")],["56-bit message of one squitter"],["fields and methods of the decoded message"])
p("C07","Position integrity follows the announced version and the latest supplements",
 "A receiver that starts at version 0 and takes the version and the navigation integrity supplements from each operational status message it hears reads every position squitter in the layout of that version. The containment radius and the integrity category it reports are those that the standard gives for the type code together with the supplements in force, and are never better than the aircraft declared. This stays so when operational status messages are lost, repeated, delayed or reordered, or the receiver restarts: the interpretation depends only on the last one received.",
 ["histories","fault_sequences","inputs"],
 "all interleavings of operational status and position messages of aircraft of all versions, upgrades of the version in flight, all type codes and supplement combinations, with loss, duplication, reordering, receiver restart",
 "Tests decode single messages with fixed parameters; the guarantee is about sequences of messages in which earlier ones select the meaning of later ones, under loss and reordering.",
 ["pkg/adsb/airborne_position/**","pkg/adsb/surface_position/**","pkg/adsb/adsb_version.go","pkg/adsb/aircraft_operational_status/*.go","pkg/bds/bds65/**"],
 [("ReadAirbornePosition","pkg/adsb/airborne_position/"),("ReadSurfacePosition","pkg/adsb/surface_position/"),("horizontal containment tables","pkg/adsb/*/fields/")],
 ["version and supplements last heard from an aircraft"],["type of the decoded message, its radius and category"])
p("C08","Airborne position pairs decode to where the aircraft is, anywhere on earth",
 "An even and an odd airborne position frame sent within the pairing time of one another, however fast the aircraft flies, decode without other information to its true position at the time of the latest frame, to within the encoding resolution, or are refused because they lie in different longitude zones. This holds at every place on earth and in both orders of arrival, and the result is always a latitude in [-90, 90] and a longitude in [-180, 180]. A pair which implies no position on earth is refused.",
 ["inputs","histories","fault_sequences","schedules"],
 "all positions (poles, equator, antimeridian, every longitude-zone boundary), all courses and speeds, all orders, delays, losses and duplications of the frames within the pairing window",
 "Tests decode two pairs over Europe; the guarantee is over every position, motion between frames and arrival order, and errors show only near zone boundaries and in particular hemispheres.",
 ["pkg/geo/cpr_airborne_global_position.go","pkg/geo/cpr_common.go","pkg/bds/bds05/airborne_position.go"],
 [("GetCPRAirborneGlobalPosition","pkg/geo/cpr_airborne_global_position.go"),("getNumberOfLongitude","pkg/geo/cpr_common.go")],
 ["latest even and odd frame of an aircraft"],["decoded latitude, longitude, error"])
p("C09","Surface position pairs decode to where the aircraft is, given a receiver nearby",
 "An even and an odd surface position frame sent within the pairing time of one another decode, with the position of a receiver less than 45 degrees away in latitude and in longitude, to the aircraft's true position at the time of the latest frame, to within the encoding resolution, or are refused because they lie in different longitude zones. This holds at every place on earth, in both orders of arrival, also where the equator or the antimeridian lies between aircraft and receiver. The result is always a latitude in [-90, 90] and a longitude in [-180, 180].",
 ["inputs","histories","fault_sequences","schedules"],
 "all positions and receiver sites within range, all taxi movements, all orders, delays, losses and duplications within the pairing window",
 "Tests decode two pairs; the quadrant choice and the zone boundaries matter only at particular places.",
 ["pkg/geo/cpr_surface_global_position.go","pkg/geo/cpr_common.go","pkg/bds/bds06/surface_position.go"],
 [("GetCPRSurfaceGlobalPosition","pkg/geo/cpr_surface_global_position.go")],["latest even and odd frame, receiver site"],["decoded latitude, longitude, error"])
p("C10","One frame and a nearby reference decode to the aircraft's position",
 "A single airborne position frame decodes, with any reference position within 180 NM of the aircraft (for a surface frame, within 45 NM and less than 45 degrees away in longitude), to the aircraft's true position to within the encoding resolution, for even and odd frames alike. This holds at every place on earth, also across the equator, the antimeridian and longitude-zone boundaries, and the result is a latitude in [-90, 90] and a longitude in [-180, 180]. A track followed by using each decoded position as the reference for the next frame therefore never jumps, whatever frames are lost meanwhile, as long as the range is respected.",
 ["inputs","histories","fault_sequences"],
 "all positions, all references in range, both formats, tracks with losses, duplicates and stale references",
 "Tests decode three frames; the zone arithmetic must hold for all references, signs and boundaries, and errors feed back through the track.",
 ["pkg/geo/cpr_airborne_local_position.go","pkg/geo/cpr_surface_local_position.go","pkg/geo/cpr_common.go"],
 [("GetCPRAirborneLocalPosition","pkg/geo/cpr_airborne_local_position.go"),("GetCPRSurfaceLocalPosition","pkg/geo/cpr_surface_local_position.go")],
 ["previous decoded position used as reference"],["decoded latitude, longitude"])
p("C11","A Comm-B reply is recognised as the register that was read, with its true values",
 "When an aircraft answers with the content of one of its supported registers (data link capability, GICB capability, identification, resolution advisory, selected vertical intention, meteorological routine or hazard, track and turn, heading and speed), that register is among the interpretations offered, with every value equal to the one encoded and every unavailable value reported as such. An empty reply is reported as no message, and a reply whose content breaks the fixed or reserved bits of a register, has a code or a character reserved there, or gives a value that it declares unavailable (a tolerated temperature in a hazard report aside) is not offered as that register. The interpretation depends on the reply alone, not on what was asked or answered before.",
 ["inputs","histories","fault_sequences"],
 "all coherent contents of registers 0,0 / 0,7 / 1,0 / 1,7 / 2,0 / 3,0 / 4,0 / 4,4 / 4,5 / 5,0 / 6,0, all sequences of interrogations and replies of many aircraft, with loss and reordering",
 "Tests decode one or two frames per register; the guarantee is over all values and over every register competing for the same bits.",
 ["pkg/commb/reader.go","pkg/bds/bds00/**","pkg/bds/bds07/**","pkg/bds/bds10/**","pkg/bds/bds17/**","pkg/bds/bds20/**","pkg/bds/bds30/**","pkg/bds/bds40/**","pkg/bds/bds44/**","pkg/bds/bds45/**","pkg/bds/bds50/**","pkg/bds/bds60/**"],
 [("ReadCommBMessage","pkg/commb/reader.go"),("register readers and coherency checks","pkg/bds/")],["56-bit register content"],["list of interpretations and their fields"])
p("C12","Resolution advisories are reported as the collision avoidance system issued them",
 "A resolution advisory decodes to the same advisory whichever way it travels: coordination reply, Comm-B register or extended squitter. Its kind (single threat or same separation, or several threats), strength, sense, reversal, complements, termination, multiplicity and threat identity (address, or altitude, range and bearing) equal what was issued, for every encounter. Values with no meaning are reported as such, and opposite or different manoeuvres are never reported as the same one.",
 ["inputs","histories","fault_sequences"],
 "all contents of the 48-bit advisory over all three carriers, whole encounters from issue to termination, with lost, repeated and reordered frames",
 "Tests decode a single advisory; all advisory bits, complements and threat identities must be mapped independently, and the three carriers must agree.",
 ["pkg/acas/ra/**","pkg/bds/bds30/**","pkg/bds/bds61/aircraft_status_acas.go","pkg/modes/messages/df16.go"],
 [("ReadResolutionAdvisory","pkg/acas/ra/resolution_advisory.go"),("threat identity","pkg/acas/ra/fields/")],["48-bit advisory"],["fields and rendering of the decoded advisory"])
p("C13","Concurrent decoding gives the sequential results, without data races",
 "Any number of threads may decode frames, share and render decoded messages, check integrity against shared allow-lists and compute positions at the same time, in any interleaving. Every result equals the one obtained by making the same calls one after the other, and no memory is read and written, or written twice, without ordering between the accesses. No interleaving deadlocks.",
 ["schedules","inputs","histories"],
 "all interleavings of any mix of decoding, rendering, integrity and position calls on shared input and shared messages",
 "Tests are single-threaded; a shared buffer, cache or lazily built table fails only in particular interleavings.",
 ["pkg/**"],[("all package-level entry points","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/acas/ra, pkg/geo")],
 ["package-level variables; caller's buffers and maps"],["results of the calls; race detector under a controlled scheduler"])
p("C14","A decoded message depends only on its own bytes and belongs to its receiver",
 "The message decoded from given bytes, with given version and supplements, is the same at any time and after any history of other calls. Decoding leaves the caller's data, allow-lists and maps as they were. Once returned, a message and its values never change, whatever the caller then does with the buffer it was read from and whatever is decoded later.",
 ["histories","inputs","fault_sequences"],
 "all sequences of calls, including receivers that reuse one buffer for every frame, with frames lost, repeated and reordered between them",
 "Tests decode each frame once from a fresh buffer; dependence on history or on the caller's buffer shows only over sequences.",
 ["pkg/modes/reader/reader.go","pkg/modes/messages/*.go","pkg/adsb/**","pkg/bds/**","pkg/commb/reader.go"],
 [("ReadMessage","pkg/modes/reader/reader.go"),("ReadADSBMessage","pkg/adsb/reader/reader.go"),("ReadCommBMessage","pkg/commb/reader.go")],
 ["caller's buffer; anything kept between calls"],["decoded messages compared over time"])
p("C15","The command line program reports every line of a log exactly once, in order",
 "Given a log file, the program reports each line once and in file order, and the report of a line is the one that line alone would give: integrity and format errors are reported for the line they belong to and do not affect other lines. A failure to open or read the file, at whatever point, ends the program with a failure status and a message, never as a success over part of the log. Given a single frame on the command line, with or without options, it reports that frame at the requested version.",
 ["inputs","fault_sequences","configurations"],
 "all mixtures of valid, damaged, empty and non-hexadecimal lines, with all line ends, at every version option; short reads, interrupted reads, read errors and open failures at any point of the file",
 "There are no tests of the program; short reads and I/O errors never happen in tests.",
 ["cmd/main.go"],[("main","cmd/main.go"),("readFile","cmd/main.go"),("processSingleLine","cmd/main.go")],["log file, position of the read"],["standard output, standard error, exit status"])
p("C16","A change in what an aircraft reports is visible in the text of its report",
 "The text of a report shows what the message holds: each value stands under its own label, with the meaning that the standard gives to it, and never with the code, the limit or the meaning of another value. When two messages of the same kind differ in a value that both declare available, their reports differ. Advisories, senses, statuses, addresses, altitudes and identities with different meanings never share one text. The text of a message is always the same for the same message.",
 ["histories","inputs"],
 "all pairs of successive reports of an aircraft in which one reported quantity changes, for every kind of message",
 "Tests check a few rendered strings; the guarantee is over all pairs of values of every field.",
 ["pkg/**/ToString"],[("ToString","pkg/")],["decoded message"],["rendered text"])
p("C17","Ground distance agrees with the motion of the aircraft",
 "The distance between two positions on earth is the great-circle distance, to within rounding, for all positions: it is zero only for the same place, the same in both directions, never more than half the circumference, and along a great circle it grows with the time flown. This holds across the antimeridian, the equator and the poles, for very small and for antipodal separations.",
 ["inputs","histories"],
 "all pairs of positions, and tracks flown in any direction from any place",
 "Tests check one or two distances; rounding and sign problems show only at tiny, antipodal or boundary separations.",
 ["pkg/geo/ground_distance.go"],[("ComputeGroundDistance","pkg/geo/ground_distance.go")],["two positions"],["returned distance"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    print(x['id'],len(x['title']));jsonschema.validate(x,s)
print(len(P))
