NA = []

prop("C01", "The published position always lies in the plan",
 "After any sequence of operations of a navigator the current route, track and segment are those of existing elements of the plan (or the start when there are none), and the distances travelled within segment, track and route are not negative and do not exceed the length of the element beyond rounding (for track and route, unless the position was moved back within its route). Without routes nothing is current, and a location is always published. No operation with any argument crashes.",
 ["inputs", "histories"], "every admissible position in every bounded plan, then every public operation with arbitrary arguments; inductive over histories",
 "Tests walk a few fixed routes; they never start from an arbitrary position nor combine removal, moves and steps.",
 [NAV, "navigator/route.go", "navigator/route_track.go"],
 [("reset of the position on every change of the plan", "navigator/navigator.go Reset, RemoveTrack, RemoveRoute, AddRoute"), ("bounds checks of moves", "navigator/navigator.go MoveToSegment")],
 ["Navigator.CurrentRoute/CurrentTrack/CurrentSegment, *Index, *Distance"],
 PLANS + "; one operation from any state satisfying the stated invariant (so histories of any length), and all two-operation histories from a fresh navigator.")

prop("C02", "A step advances by exactly speed times duration along the plan",
 "A step of a given duration and speed moves the navigator forward by exactly duration times speed within the current segment when it fits there, and otherwise continues into the connected segments that follow or ends at the start of the next track or route. The four travelled distances grow together, the published location is the point at that distance along the segment (the first step of a track publishes the point one metre behind its start), and without routes or while offline nothing moves.",
 ["inputs", "histories"], "every step duration and speed from every admissible position of every bounded plan",
 "Tests step with a handful of speeds over fixed routes and only look at whether the end is reached.",
 [NAV], [("traversal", "navigator/navigator.go NextLocation, updateDist, isValidDistance"), ("next element", "navigator/navigator.go nextSegment, nextTrack, nextRoute")],
 ["Navigator.NextLocation, Location, Current*Distance"],
 PLANS + "; speeds 0..1000 m/s, ticks 0..3600 s, distances within 1e-6 m of a segment's end excluded; arithmetic up to rounding.")

prop("C03", "The whole plan is traversed in order and its end is reported once",
 "Repeated steps visit the segments, tracks and routes of a plan in their order, none of them skipped or visited out of order, zero-length segments included. Behind the last one the position wraps to the start and the end of the plan is reported exactly then, never on an earlier step.",
 ["inputs", "histories"], "every single step from every admissible position of every bounded plan (inductive over traversals of any length)",
 "Tests traverse fixed routes without zero-length segments and count finishes for one speed.",
 [NAV], [("order of elements", "navigator/navigator.go nextSegment, nextTrack, nextRoute"), ("end marker", "navigator/navigator.go IsFinish")],
 ["Navigator.IsFinish, RouteIndex, TrackIndex, SegmentIndex"],
 PLANS + "; one step from any admissible position.")

prop("C04", "Offline periods last as configured and stop all movement",
 "An offline period starts with a number of steps within the configured limits, counts down by one with every step and ends at zero; while it lasts position, distances and location stay as they are. Limits outside of 0 to 3600 are refused, and a navigator that skips offline periods is never offline.",
 ["inputs", "configurations"], "every pair of limits, every random draw, every remaining duration and position",
 "Tests set one pair of limits and check a single random draw.",
 [NAV, "navigator/options.go", "types/random.go"], [("countdown", "navigator/navigator.go nextOffline"), ("random duration", "types/random.go Value"), ("validation", "navigator/options.go")],
 ["Navigator.IsOffline, OfflineDuration, ToOffline"],
 PLANS + "; limits over all of int range, all 32-bit random draws, ticks and speeds arbitrary.")

prop("C05", "The distance of a plan is the sum of its parts",
 "The distance of a navigator is at all times the sum of the distances of its routes, that of a route the sum of its tracks and that of a track the sum of its segments, after any additions and removals of routes and tracks, be it through the navigator or through one of its routes. The published distances of the current route, track and segment are those of the current elements.",
 ["inputs", "histories"], "every bounded plan and every two (thorough: three) additions, removals and resets in any order",
 "Tests add and remove one fixed route and never compare the sums.",
 [NAV, "navigator/route.go"], [("recomputed totals", "navigator/navigator.go calcRouteDistance; navigator/route.go updateState")],
 ["Navigator.Distance, Route.Distance, Track.Distance, published state"],
 PLANS + "; sums compared up to 1e-6.")

prop("C06", "Jumping to a distance lands at that distance of the plan",
 "A jump to a distance between 1 m and the length of the plan puts the navigator at the element and offset that lie that far from the start, with all travelled distances consistent with it, and a longer distance means the end. Shorter distances and values that are no numbers are refused without changing anything.",
 ["inputs"], "every distance and every position of every bounded plan",
 "Tests jump to a few distances in one route and check the percentage of the way.",
 [NAV], [("search of the element", "navigator/navigator.go jump")], ["Navigator.DestinationTo and the travelled distances"],
 PLANS + "; any float including NaN and infinities; distances within rounding of element boundaries excluded.")

prop("C07", "Moving to a place puts the navigator at its start or changes nothing",
 "Moving to an existing route, track or segment by index, identifier or direction makes that element current, puts the location at its first point and clears what was travelled within it. Any other request reports failure and changes nothing.",
 ["inputs", "histories"], "every index triple and identifier from every admissible position of every bounded plan",
 "Tests move between the elements of one plan with valid indexes mostly.",
 [NAV], [("bounds checks", "navigator/navigator.go MoveToSegment, MoveToTrackByID")], ["Navigator.MoveTo*, NextRoute, PrevRoute"],
 PLANS + "; indexes over the int range, identifiers of 0..36 bytes.")

prop("C08", "Routes and tracks are registered once and found by identifier",
 "An identifier refers to at most one route of a navigator: adding a route again or a missing one has no effect, lookups find exactly what was added, and removals report whether something was removed and keep the order of the rest. Every change of names, colours or the set of elements increases the version counters, and lookups of routes leave them alone.",
 ["inputs", "histories"], "every bounded plan, lookup identifier, and addition of up to three routes among them nils and duplicates",
 "Tests look up one identifier and add one duplicate.",
 [NAV, "navigator/route.go"], [("duplicate check", "navigator/navigator.go hasRoute"), ("versions", "navigator/*.go nextVersion")], ["Navigator.RouteByID, AddRoute, RemoveRoute, Sum; Route.AddTrack"],
 PLANS + "; identifiers of 0..36 bytes, of any two routes and tracks together.")

prop("C09", "A track goes through exactly its points",
 "A track made of at least two points has one segment between each pair of neighbours with their geodesic distance and initial bearing, and its length is the sum of them. It is closed exactly if it has at least three points and the first equals the last; fewer than two points are refused.",
 ["inputs"], "every sequence of up to 4 (thorough: 6) valid points",
 "Tests build a few tracks of hand-picked points.",
 ["navigator/route_track.go", "navigator/route_track_segment.go"], [("segments", "navigator/route_track_segment.go makeSegments"), ("closedness", "navigator/route_track.go isClosed")], ["Track.SegmentAt, Distance, IsClosed"],
 "0 to 4 (thorough 6) points with arbitrary valid coordinates.")

prop("C10", "A snapshot restores exactly what it was taken of",
 "Whatever is restored from a snapshot (device, navigator, route, sensor, speed, battery) publishes the same state as the original, whatever it was restored onto, and behaves the same in the following step. Taking a snapshot changes nothing, and the snapshot does not depend on later changes.",
 ["inputs", "histories"], "every admissible state of every bounded plan, restored onto fresh or used objects, also ones that had skipped steps, then one arbitrary step",
 "Tests restore one state and compare the objects at that moment only.",
 [NAV, "navigator/route.go", "device.go", "types/sensor.go", "types/speed.go", "types/battery.go", "curve/curve.go"], [("snapshots", "*.Snapshot, *.FromSnapshot")], ["Snapshot of the restored object, next step"],
 PLANS + "; curves of 4 points within 1e12 of zero; equal random draws for both.")

prop("C11", "Encoding and decoding keep trackers, routes and sensors",
 "A tracker, routes or sensors decoded from their own binary encoding equal the originals in everything they publish: identifiers, names, colours, geometry, distances, properties, position, offline period, battery, speed and sensors. A decoded tracker is stopped, and empty input is refused.",
 ["inputs"], "every admissible device state over bounded plans; up to 2 routes of up to 2 tracks and up to 3 sensors with arbitrary content",
 "Tests round-trip a single freshly made tracker.",
 ["io.go", "device.go", "navigator/route.go", "navigator/route_track.go"], [("binary form", "device.go MarshalBinary, UnmarshalBinary; io.go")], ["EncodeTracker/DecodeTracker, EncodeRoutes/DecodeRoutes, EncodeSensors/DecodeSensors"],
 PLANS + "; texts of opaque content up to 64 bytes; versions up to 2^40; protobuf and JSON wire formats are modelled as faithful codecs.")

prop("C12", "Decoding incomplete or foreign binary data never crashes",
 "Any well-formed binary message, whatever parts of it are missing and whatever its indexes say, is either refused with an error or gives an object that can be stepped, moved and encoded again. Data that are no message are refused and change nothing.",
 ["inputs"], "every message that lacks one of its parts or has arbitrary indexes or limits; arbitrary bytes behind an invalid prefix",
 "Tests decode empty and valid data only.",
 ["device.go", NAV, "io.go", "curve/curve.go", "types/sensor.go"], [("restoring from missing parts", "*.FromSnapshot")], ["DecodeTracker, DecodeRoutes, DecodeSensors, UnmarshalBinary"],
 "one missing part at a time of a tracker with one route, track and segment; index and offline limits over 32..40 bit ranges; messages whose last byte is missing; other wire-level corruption modelled as rejected by protobuf.")

prop("C13", "GeoJSON export and import keep routes",
 "Routes with tracks that are written as GeoJSON and read again have the same identifiers, names, colours, distances, properties and order, and each of their tracks the same identifier, name, colour, properties, points and closedness. Routes without tracks are left out.",
 ["inputs"], "one or two routes of up to three tracks with arbitrary points, names and properties",
 "Tests compare counts and one property for fixed files.",
 ["geojson/encoding.go", "geojson/feature_collection.go"], [("tracks info", "geojson/feature_collection.go ToFeatureCollection; geojson/encoding.go restoreRoute")], ["EncodeGeoJSONRoutes, DecodeGeoJSONRoutes"],
 "up to 2 routes of 0..2 tracks of 2..3 points, one route of 3 tracks, and four routes with nine tracks of up to 8 points; property names other than the reserved ones; JSON modelled as a faithful codec.")

prop("C14", "GPX export and import keep routes",
 "Routes with tracks that are written as GPX and read again have the same identifiers, names, colours, properties and order, and each of their tracks the same identifier, name, colour, properties and closedness, whatever the names look like. Their points are kept within 3e-10 degrees.",
 ["inputs"], "arbitrary points, identifiers, names and properties",
 "Tests compare counts for fixed files and simple names.",
 ["gpx/encoding.go"], [("extension nodes", "gpx/encoding.go Encode, Decode"), ("coordinates", "gpx/encoding.go coord")], ["EncodeGPXRoutes, DecodeGPXRoutes"],
 "up to 2 routes of 0..2 tracks, and four routes with nine tracks; one arbitrary point, name or identifier at a time; texts that read like numbers or booleans excluded for properties; texts of valid XML characters; XML modelled as a faithful codec with the library's coordinate format and its trimming of texts.")

prop("C15", "Reading foreign or broken GeoJSON and GPX refuses or reads it, no crash",
 "Foreign documents of supported geometries become routes whose tracks go through exactly the points of the document in order, with new identifiers and the properties of the feature. Unsupported geometries, tracks of less than two points and documents whose own extensions are incomplete or contradict the geometry are refused with an error, and no document crashes the reader.",
 ["inputs"], "documents of every geometry type with up to 3 positions and 2 members, and every single missing or wrong part of the library's own documents",
 "Tests read a dozen files.",
 ["geojson/encoding.go", "gpx/encoding.go"], [("validation", "geojson/encoding.go restoreRoute, parseGeometry; gpx/encoding.go validateRoutes")], ["DecodeGeoJSONRoutes, DecodeGPXRoutes"],
 "documents as described, and larger ones of up to nine features; coordinates arbitrary; syntax errors limited to samples.")

prop("C16", "Sensor, speed and elevation values stay within their limits",
 "Every value of a sensor, a speed or the elevation lies between its configured minimum and maximum, at every moment of the way, before and after a shuffle, for every random curve. Speeds and batteries with equal limits are constant.",
 ["inputs", "configurations"], "every pair of limits, every random control value, every time in [0,1]",
 "Tests sample random curves a few times.",
 ["curve/curve.go", "types/sensor.go", "types/speed.go", NAV], [("Bezier curve through random control points", "curve/curve.go New, Shuffle, Point")], ["Sensor.ValueY, Speed.Value, Navigator.Elevation"],
 "amplitudes 4..6 (thorough 7) at any time, 4..64 (thorough 512) at sampled times; exact arithmetic up to rounding.")

prop("C17", "Sensor modes pin the start and the end of the curve",
 "A sensor whose mode starts (or ends) at the minimum has the minimum as its value at the start (or end) of the way, also after every shuffle, and the horizontal value runs from zero to the amplitude less one. All other control values are within the limits.",
 ["inputs", "configurations"], "every pair of limits, random control value, mode and amplitude up to the bound",
 "Tests look at one curve per mode.",
 ["curve/curve.go", "types/sensor.go"], [("modes", "curve/curve.go New, Shuffle")], ["Sensor.ValueX/ValueY at 0 and 1"],
 "amplitudes 4..64, and of 65, 257, 300 and 512 control points, ends compared up to rounding (1e-3).")

prop("C18", "The battery discharges linearly within its limits",
 "The charge of a battery falls linearly with the time of use over its charge time, never leaves the configured limits and never rises without a reset, which restores the maximum. It is low exactly when it has come down to its minimum, and limits outside of 0 to 100 are refused.",
 ["inputs", "configurations"], "every pair of limits, charge time and usage",
 "Tests discharge one battery in fixed steps.",
 ["types/battery.go"], [("charge", "types/battery.go Value, Next, Reset")], ["Battery.Value, IsLow"],
 "limits and charge times arbitrary, two arbitrary usages; exact arithmetic up to rounding.")

prop("C19", "Device time adds up to the time of its steps",
 "The duration and tick a device publishes account for all the time it was stepped by, also for steps that were skipped because the device was busy, which are made up for by the next step. The distance travelled in a step of constant speed is the speed times that time.",
 ["inputs", "schedules"], "every step time, device state and number of skipped steps up to 3",
 "Tests step unhindered devices and look at the duration once.",
 ["device.go"], [("skipped time", "device.go incTick, resetTick"), ("step", "device.go Next")], ["published duration and tick"],
 "one to three steps from any device state over bounded plans; up to three skipped steps of up to 20000 s, of a device that is on its way or offline; skipped steps of fractions of seconds count to half a second each.")

prop("C20", "A step keeps speed, sensors and battery within limits and defined",
 "After a step of any duration the published speed, battery charge and every sensor value are numbers within their limits, sensors and elevation follow the progress along the plan (sensors in the time that the plan takes at average speed, within one step), and the battery is charged anew when it was low. Without routes nothing happens.",
 ["inputs", "histories"], "every step time and every admissible device state",
 "Tests step a few devices and compare nothing but the end.",
 ["device.go", "types/speed.go", "types/sensor.go", "types/battery.go"], [("step", "device.go Next, nextT")], ["published state"],
 "one step from any state over bounded plans, curves of 4 points, up to 2 sensors.")

prop("C21", "The published state is that of the device, complete and finite",
 "After every step (of an offline device or into the next track as well) and after an update that follows any change of the plan, the published state holds the current location, distances, indexes, identifiers, sensors, battery, speed and offline period of the device, and the list of its routes. Every published number is finite, and identifiers are empty exactly when nothing is current.",
 ["inputs", "histories"], "every admissible device state, every public change followed by an update",
 "Tests compare a few fields after one step.",
 ["device.go", NAV], [("publishing", "device.go updateState, updateRoutes, updateSensors; navigator/navigator.go Update")], ["Device.State"],
 "one operation from any state over bounded plans; two steps of any time along three tracks (equator, meridian, oblique) for the place in degrees and UTM.")

prop("C28", "Geodesic distances, bearings and destinations are sound",
 "The distance between two points is that of the great circle, the same both ways, zero for equal points and never more than half the circumference of the earth, antipodes included. A destination is a valid position that lies at the distance and in the direction asked for, and the distance and bearing of a place lead to that place; haversines and distances convert into each other, and distances of more than a turn around the earth are reduced by whole turns. Bearings lie between 0 and 360 degrees, clockwise from north.",
 ["inputs"], "every pair of valid points, every bearing and distance up to 50000 km",
 "Tests compare a few city pairs.",
 ["geo/distance.go", "geo/bearing.go", "geo/destination.go"], [("great circle", "geo/distance.go Distance, Haversine, DistanceFromHaversine, DistanceToHaversine"), ("direction", "geo/bearing.go Bearing"), ("destination", "geo/destination.go Destination")], ["geo.Distance, geo.Bearing, geo.Destination, geo.Haversine, geo.DistanceToHaversine, geo.DistanceFromHaversine"],
 "exact arithmetic; trigonometric functions by identities (addition theorems, Pythagoras, inverse functions) with tolerances of 0.5..1 m, 1e-5..1e-3 degrees; latitudes up to 85 degrees for identities between three places (all latitudes for ranges), destinations up to 89 degrees, distances from one metre to ten kilometres less than half the circumference for bearings that lead back.")

prop("C29", "Degrees, minutes and seconds denote the position",
 "For every position the published degrees, minutes and seconds with their direction add up to the coordinate (within 1e-9 degrees), with minutes and seconds below 60 (seconds up to rounding) and the direction matching the sign.",
 ["inputs"], "every latitude within [-90,90] and longitude within [-180,180]",
 "Tests convert a few coordinates.",
 [NAV, "navigator/location.go"], [("conversion", "navigator setDMS")], ["published latitude and longitude in DMS"],
 "exact arithmetic up to rounding.")

prop("C22", "Sensors are registered once, in order, and published",
 "A device has exactly the sensors that were added and not removed, in the order of their addition; missing sensors and such whose identifier is taken are ignored. Sensors are found by position and identifier, a removal reports whether there was such a sensor, and lists of sensors are copies. What the device publishes about its sensors is at all times what its sensors are.",
 ["inputs", "histories"], "every sequence of two (thorough: four) additions, removals and resets of sensors of arbitrary identifiers, and any lookup",
 "Tests add and remove one or two sensors of fixed names.",
 ["device.go"], [("registry", "device.go AddSensor, RemoveSensor, SensorByID, updateSensors")], ["Device.Sensors, SensorAt, SensorByID, NumSensors, State().Sensors"],
 "up to 5 sensors of which two share their identifier, identifiers of 0..36 bytes, two (thorough: four) operations.")

prop("C23", "Options are accepted exactly within their documented limits",
 "A device, navigator, sensor or battery is made exactly if all of its options are within their documented limits (speeds 0 to 1000 m/s, elevations 0 to 50000 m, offline periods 0 to 3600 s, battery 0 to 100, amplitudes 4 to 512, models of 3 to 64 bytes, valid colours), and an accepted option is the one that is used. The predefined trackers can be made and run within their limits. A refused change of model or colour changes nothing; options are not changed by what is made of them, and devices of the same options have different identifiers.",
 ["inputs", "configurations"], "every value of each option, the other ones at their defaults",
 "Tests try a few values per option.",
 ["device.go", "device_options.go", "navigator/options.go", "types/speed.go", "types/sensor.go", "types/battery.go", "types/model.go", "types/validator.go"],
 [("validation", "device.go NewDevice; device_options.go applyFor, navOpts; navigator/options.go validate; types/*.go")], ["NewDevice, navigator.New, NewSensor, RestoreSensor, NewBattery, Device.SetModel, Device.SetColor"],
 "numbers over wide ranges around the limits, texts of 0..80 bytes, amplitudes and colours from lists around the limits; elevations and offline periods with a negative maximum are not specified.")

prop("C24", "A generator knows exactly the devices attached to it",
 "A generator has exactly the devices that were attached and not detached, in the order of attachment; they are found by identifier and visited in order. A device runs from its attachment to its detachment and cannot be attached anywhere else meanwhile.",
 ["inputs", "histories"], "every sequence of three (thorough: five) attachments and detachments of devices of arbitrary identifiers",
 "Tests attach and detach one or two devices.",
 ["generator.go", "device.go"], [("registry", "generator.go Attach, Detach, find, delete"), ("status", "device.go mount, unmount")], ["Generator.NumDevices, Lookup, HasTracker, Each; Device.Status"],
 "up to 3 devices with identifiers of 1..36 bytes (6 devices for the order, 3 that may share an identifier), arbitrary identifiers for detaching.")

prop("C25", "Every step delivers the state of every attached device exactly once",
 "In every step of a running generator each attached device is stepped by the time since the previous step (at least a second) and its new state is delivered in exactly one packet, whatever the number of devices, workers and the size of packets. Packets can be decoded, stay as they were delivered, are stamped with the time of their delivery and hold no other devices. A packet that cannot be encoded is reported and not delivered, and the generator goes on.",
 ["inputs", "configurations"], "numbers of devices around every limit of packets and workers, every duration, every lateness of ticks",
 "Tests run a generator with a few devices for some time and count packets.",
 ["generator.go", "encoding.go"], [("packets", "generator.go run, flush, doWorker"), ("elapsed time", "generator.go run")], ["Generator.OnPacket, OnError; PacketFromBytes"],
 "1 to 1025 devices (thorough: 2049), 1 to 32 (thorough: 1024) workers, 1 or 2 steps, in the order of a fixed schedule; ticks up to an hour late; the packets of one step carry the time of their own delivery; a close at any point of a step of 1 or 2 workers, up to 4 (thorough: 5) departures from a fixed schedule.", state=None)

prop("C26", "A closed generator stops and leaves nothing behind",
 "Whenever a generator is closed (before it runs, at any point of its work, from another goroutine or from one of its callbacks) its Run returns. No goroutine of it stays behind, no call blocks for ever, and a notification that closed the generator is not given again.",
 ["schedules", "histories"], "every point of the work of run loop, workers and next notifier at which a close may fall, under every schedule up to the bound of preemptions",
 "Tests close a generator at one moment of one schedule.",
 ["generator.go"], [("shutdown", "generator.go Close, isClosed, push, wait"), ("workers", "generator.go doWorker, doNext")], ["Generator.Run, Generator.Close"],
 "1 or 2 workers, 0, 1, 515 or 1025 devices, 1 or 2 steps, up to 2 (thorough: 3) preemptions at channel operations or up to 2 (4) departures from a fixed schedule, up to equivalence of schedules.")

prop("C27", "Concurrent use of devices and generators is free of data races",
 "All operations of a device may be called from several goroutines at the same time, and all operations of a generator while it runs and calls back, without data races. This includes reading the states, snapshots and packets they hand out while the device goes on.",
 ["schedules", "inputs"], "every pair of operations of a device, and every operation of a generator or an attached device against a running generator",
 "Tests use devices from one goroutine; the race detector sees only the schedules that happen.",
 ["device.go", "generator.go", NAV], [("device lock", "device.go mu"), ("generator locks", "generator.go mu, dmu")], ["go race detector on the replay of the pair"],
 "pairs of operations on a device that is on its way or offline (thorough: also at the start or the end), lockset and happens-before analysis of the symbolic run; pairs of ten operations that draw random values; generator: 1 (thorough: 2) workers, 1 step, 1 (thorough: 3) departures from a fixed schedule. The *Sensor and *Route objects a device hands out are not covered by its lock and excluded.")

prop("C30", "Random values stay within their documented range",
 "Random integers lie within their limits, random strings have exactly the requested length and consist of letters and digits, and random positions lie on the earth. A random polygon has the requested number of points (16 by default), is closed, and none of its coordinates exceeds the size its zoom allows.",
 ["inputs"], "every limit, length and zoom and every random draw",
 "Tests draw a few values.",
 ["random/polygon.go", "random/string.go", "random/latlon.go", "types/random.go", "types/model.go"], [("draws", "random/*.go; types/random.go Value")], ["random.String, random.LatLon, random.Polygon, types.Random.Value"],
 "strings of up to 9 bytes, polygons of up to 6 points and the default, zooms -10..2000, draws of the exponential distribution up to 45.")

prop("C31", "Countries are found by code, with valid limits around their positions",
 "Every country of the table is found by its two-letter code in upper or lower case with its name and its limits, which are valid positions in order, and every other code is refused. A random position of a country lies within its limits, and a position is in a box exactly if it lies between its limits.",
 ["inputs"], "every country, every string of up to 3 bytes, every box and position and every random draw",
 "Tests look up a few countries.",
 ["random/latlon.go", "geo/geo.go"], [("table", "random/latlon.go countries, bboxByCountries"), ("box", "geo/geo.go In, Center")], ["random.CountryName, BoundingBox, LatLonByCountry, EachCountry; geo.BBox"],
 "all 173 countries; codes of 0..3 arbitrary bytes.")

prop("C32", "Properties give back what was set, as what it is",
 "A set of properties holds exactly the last value of every name that was set or merged and not removed. A value is found as text, boolean, integer or number exactly if it is one, with its value kept; fractions are never found as integers, and nothing is found for other names.",
 ["inputs", "histories"], "every name and value of every supported type, and every sequence of three (thorough: four) changes",
 "Tests set and read one value of each type.",
 ["properties/properties.go"], [("typed access", "properties/properties.go String, Bool, Int, Float64")], ["Properties.String, Bool, Int, Float64, Set, Remove, Merge, Reset"],
 "names of 0..10 bytes, values over the whole ranges of their types (floats up to 1e300).")

prop("C33", "Random routes have the requested shape around their centre",
 "A random route has the requested number of tracks (one for negative numbers), each of them closed, with 16 segments, a name and an identifier of its own, and its distance is the sum of their segments. All of its points lie around the centre, not further away than its level allows, with levels limited to those documented; the routes of cities have three tracks around their city.",
 ["inputs"], "every centre up to 75 degrees of latitude, levels around the limits, every random draw",
 "Tests make one route per level and count its tracks.",
 ["route.go", "random/polygon.go", "geo/normalize.go"], [("shape", "route.go RandomRoute; random/polygon.go Polygon")], ["RandomRoute, RandomRouteForNewYork, RandomRouteForMoscow, RandomRouteForParis"],
 "up to 11 tracks (thorough 101), levels from a list around the limits, draws of the exponential distribution up to 45.")

prop("C34", "Published UTM coordinates denote the position",
 "The published UTM zone is that of the position, with the wider zones of Norway and Svalbard, and central meridian, hemisphere, latitude band and reference system number are those of zone and position. Easting and northing are those of the position in that zone.",
 ["inputs"], "every latitude within [-90,90] and longitude within [-180,180], both edges included",
 "Tests convert a few coordinates.",
 ["navigator/location.go"], [("conversion", "navigator/location.go setUTM")], ["published UTM coordinates (Navigator.Update)"],
 "the library's choice of zone and band is executed, its projection of a position in a given zone is a function of its arguments; bands within 80 S..84 N; easting and northing at longitude 180 not compared.")

prop("C35", "What is handed out or taken in is a copy",
 "Snapshots, published states, options and lists of points, routes, tracks and sensors that are handed out or taken in are copies: what happens to the tracker later does not change them, and changing them does not change the tracker nor another one restored from the same snapshot. Taking a snapshot, reading the published state and writing routes, sensors and trackers change nothing.",
 ["inputs", "histories"], "every admissible device state, every kind of later change, every value of the copies",
 "Tests compare a snapshot with its device and drop both.",
 ["device.go", NAV, "navigator/route_track.go", "navigator/route.go", "encoding.go", "geojson/encoding.go", "gpx/encoding.go", "types/sensor.go", "curve/curve.go"], [("snapshots", "Snapshot and FromSnapshot of device, navigator, sensor, curve"), ("state", "device.go State"), ("writing", "encoding.go, geojson/, gpx/ Encode*")], ["Device.Snapshot, FromSnapshot, State, MarshalBinary; navigator.NewTrack, RestoreTrack; EncodeGeoJSONRoutes, EncodeGPXRoutes, EncodeRoutes, EncodeTracker, EncodeSensors"],
 "a device with one route of one track of two segments, none or two sensors, properties of one text; lists of up to three routes, tracks or sensors; one later change of 12; points of 2..4.")
