From 97fe2689ef9fd0bf9e115c87c69cd30c96bdb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 01/35] fix: recompute distances and reset the position when a
 track is removed from a navigator

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..24b5a1c 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
-- 
2.43.0


From 2e4a3f1a5b25883d0555f2f1198984b42e1084ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 02/35] fix: place the navigator at the requested distance when
 jumping past the first elements of a plan or to its end

---
 navigator/navigator.go | 55 +++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 24b5a1c..35a815b 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -611,7 +611,7 @@ func (n *Navigator) jump(distance float64) bool {
 	if distance > n.distance {
 		distance = n.distance
 	}
-	if distance < 1 {
+	if !(distance >= 1) {
 		return false
 	}
 
@@ -627,52 +627,63 @@ func (n *Navigator) jump(distance float64) bool {
 		curTrackDist float64
 	)
 
+	// An element without distance cannot hold a position, and the last
+	// element that can takes everything up to the end of the plan.
 	for i := 0; i < len(n.routes); i++ {
-		route = n.routes[i]
-		routeIndex += i
-		if route.dist+routeDist > distance {
-			break
+		if n.routes[i].dist == 0 {
+			continue
+		}
+		if route != nil {
+			if route.dist+routeDist > distance {
+				break
+			}
+			routeDist += route.dist
 		}
-		routeDist += route.dist
+		route = n.routes[i]
+		routeIndex = i
 	}
 	if route == nil {
 		return false
 	}
 
 	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
+		if route.TrackAt(i).dist == 0 {
 			continue
 		}
-		trackIndex += i
-		if track.dist+routeDist > distance {
-			break
+		if track != nil {
+			if track.dist+routeDist > distance {
+				break
+			}
+			curRouteDist += track.dist
+			routeDist += track.dist
 		}
-		curRouteDist += track.dist
-		routeDist += track.dist
+		track = route.TrackAt(i)
+		trackIndex = i
 	}
 	if track == nil {
 		return false
 	}
 
 	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
+		if track.SegmentAt(i).IsEmpty() {
 			continue
 		}
-		segmentIndex = i
-		if segment.dist+routeDist > distance {
-			break
+		if !segment.IsEmpty() {
+			if segment.dist+routeDist > distance {
+				break
+			}
+			routeDist += segment.dist
+			curRouteDist += segment.dist
+			curTrackDist += segment.dist
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
+		segment = track.SegmentAt(i)
+		segmentIndex = i
 	}
 	if segment.IsEmpty() {
 		return false
 	}
 
-	diff := math.Abs(distance - routeDist)
+	diff := math.Min(math.Abs(distance-routeDist), segment.dist)
 	n.point = segment.DestinationTo(diff)
 	n.routeIndex = routeIndex
 	n.trackIndex = trackIndex
-- 
2.43.0


From 86a8827b6d69cac86d9d89ab35c0e746155c06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 03/35] fix: continue behind a zero-length segment instead of
 abandoning the rest of the track

---
 navigator/navigator.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 35a815b..910e2b2 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -523,9 +523,7 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			seg, foundSegment := n.nextSegment()
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
@@ -533,7 +531,7 @@ loop:
 					break loop
 				}
 				continue
-			case notFoundSegment:
+			default:
 				if !n.nextTrack() {
 					n.nextRoute()
 				}
@@ -731,18 +729,20 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+// nextSegment moves to the next segment of the current track and returns
+// the segment left behind, which may be empty.
+func (n *Navigator) nextSegment() (Segment, bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
-	segment := n.CurrentSegment()
+	segment := track.SegmentAt(n.segmentIndex)
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From 33ac76d7c3a8c48dc5f78f0042ebde60565065e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 04/35] fix: do not take a first step of 0.1 metres for the end
 of the plan

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 910e2b2..ff70caf 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -241,6 +241,7 @@ func (n *Navigator) IsFinish() bool {
 	if n.routeIndex == 0 &&
 		n.trackIndex == 0 &&
 		n.segmentIndex == 0 &&
+		n.currentSegmentDistance == 0 &&
 		n.currentDistance == 0.1 {
 		n.currentDistance = 0
 		return true
-- 
2.43.0


From e6c85744f1e899f2d30b1ac5d036d7c09ba7b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 05/35] fix: keep distances between antipodes and destinations
 at the poles finite

---
 geo/destination.go | 5 +++--
 geo/distance.go    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/geo/destination.go b/geo/destination.go
index b898cfd..71e3965 100644
--- a/geo/destination.go
+++ b/geo/destination.go
@@ -10,8 +10,9 @@ func Destination(lat, lon, meters, bearingDegrees float64) (
 	θ := bearingDegrees * radians
 	φ1 := lat * radians
 	λ1 := lon * radians
-	φ2 := math.Asin(math.Sin(φ1)*math.Cos(δ) +
-		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ))
+	sφ2 := math.Sin(φ1)*math.Cos(δ) +
+		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+	φ2 := math.Asin(math.Max(-1, math.Min(1, sφ2))) // rounding may exceed the unit range
 	λ2 := λ1 + math.Atan2(math.Sin(θ)*math.Sin(δ)*math.Cos(φ1),
 		math.Cos(δ)-math.Sin(φ1)*math.Sin(φ2))
 	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi // normalise to -180..+180°
diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..cd762ad 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,5 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	return earthRadius * 2 * math.Asin(math.Min(1, math.Sqrt(haversine)))
 }
-- 
2.43.0


From 732f06a49228ec060b6772e052905a438649674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 06/35] fix: compare both coordinates when deciding whether a
 track is closed

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From f325f340233535d9798e17a2bec18c86e40e3299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 07/35] fix: keep the battery charge within its limits and
 defined without charge time

---
 types/battery.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..ff01e80 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,15 +37,15 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
+	if min > max {
+		min = max
+	}
 	if min < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
 		return nil, ErrMaxBattery
 	}
-	if min > max {
-		min = max
-	}
 	if chargeTime < 0 {
 		chargeTime = defaultChargeTime
 	}
@@ -73,19 +73,30 @@ func (t *Battery) ChargeTime() time.Duration {
 
 // IsLow returns true if the battery charge level is at its minimum value, indicating a low battery condition.
 func (t *Battery) IsLow() bool {
-	val := t.Value()
-	return val == t.min
+	return t.level() <= t.min
 }
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
-	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	val := t.level()
+	if val > t.max {
+		val = t.max
+	}
 	if val < t.min {
 		val = t.min
 	}
 	return val
 }
 
+// level is the charge level regardless of the limits of the battery.
+func (t *Battery) level() float64 {
+	seconds := t.chargeTime.Seconds()
+	if t.val >= seconds {
+		return minBatteryVal
+	}
+	return 100 - (t.val / seconds * 100)
+}
+
 // Reset resets the battery charge level to zero.
 func (t *Battery) Reset() {
 	t.val = 0
-- 
2.43.0


From 8d25c0a937b359713db2c338a035a0811ee0966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 08/35] fix: publish a finite time estimate and no identifiers
 of removed routes and tracks

---
 device.go              | 5 ++++-
 navigator/navigator.go | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 16f5bcd..01297c8 100644
--- a/device.go
+++ b/device.go
@@ -824,7 +824,10 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
diff --git a/navigator/navigator.go b/navigator/navigator.go
index ff70caf..314317a 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -349,9 +349,11 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
+	state.Navigator.CurrentTrackId = ""
 	if track := n.CurrentTrack(); track != nil {
 		state.Navigator.CurrentTrackId = track.ID()
 	}
-- 
2.43.0


From c85106940d5321694d136956071000730be9d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 09/35] fix: account for all of the time of steps that found
 the device busy

---
 device.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 01297c8..9447912 100644
--- a/device.go
+++ b/device.go
@@ -633,7 +633,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.incTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -642,9 +642,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := float64(d.resetTick()) + tick
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -807,12 +805,14 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
-	atomic.AddUint32(&d.tick, 1)
+// incTick keeps the whole seconds of a skipped step.
+func (d *Device) incTick(tick float64) {
+	atomic.AddUint32(&d.tick, uint32(math.Round(tick)))
 }
 
-func (d *Device) resetTick() {
-	atomic.StoreUint32(&d.tick, 0)
+// resetTick returns the seconds of the skipped steps and starts over.
+func (d *Device) resetTick() uint32 {
+	return atomic.SwapUint32(&d.tick, 0)
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From 9e8116c95180952a04171521cc76880abf10a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 10/35] fix: keep the speed defined in the first step along a
 plan without distance

---
 device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device.go b/device.go
index 9447912..377e584 100644
--- a/device.go
+++ b/device.go
@@ -816,6 +816,9 @@ func (d *Device) resetTick() uint32 {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if d.avgT == 0 {
+		return 1.0 // a plan without distance takes no time
+	}
 	dur := d.state.Duration + tick
 	return math.Min(dur/d.avgT, 1.0)
 }
-- 
2.43.0


From 7961e4e6b146f5d2094fa3d5c0af82adbb94e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 11/35] fix: find numbers in properties that were read from
 JSON or GPX

---
 properties/properties.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/properties/properties.go b/properties/properties.go
index 52fab9f..478880d 100644
--- a/properties/properties.go
+++ b/properties/properties.go
@@ -1,5 +1,10 @@
 package properties
 
+import "math"
+
+// maxExactInt is the limit up to which a float64 holds every integer.
+const maxExactInt = 1 << 53
+
 // Properties represents a collection of key-value pairs with flexible value types.
 type Properties map[string]interface{}
 
@@ -33,7 +38,7 @@ func (p Properties) Bool(key string) (bool, bool) {
 	return false, false
 }
 
-// Bool retrieves the value associated with the given key as a boolean.
+// Int retrieves the value associated with the given key as an integer.
 func (p Properties) Int(key string) (int, bool) {
 	switch val := p[key].(type) {
 	case int:
@@ -42,6 +47,11 @@ func (p Properties) Int(key string) (int, bool) {
 		return int(val), true
 	case int64:
 		return int(val), true
+	case float64: // what an integer becomes in JSON
+		if val != math.Trunc(val) || math.Abs(val) > maxExactInt {
+			return 0, false
+		}
+		return int(val), true
 	default:
 		return 0, false
 	}
@@ -49,11 +59,18 @@ func (p Properties) Int(key string) (int, bool) {
 
 // Float64 retrieves the value associated with the given key as a float64.
 func (p Properties) Float64(key string) (float64, bool) {
-	i, ok := p[key].(float64)
-	if ok {
-		return i, ok
+	switch val := p[key].(type) {
+	case float64:
+		return val, true
+	case int: // what a float without fraction becomes in GPX
+		return float64(val), true
+	case int32:
+		return float64(val), true
+	case int64:
+		return float64(val), true
+	default:
+		return 0, false
 	}
-	return 0, false
 }
 
 // Set sets the value associated with the given key.
-- 
2.43.0


From 1ad69fec2fc016c2e5dfcaf756427126c92287f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 12/35] fix: decide by the snapshot whether a restored
 navigator skips offline

---
 navigator/navigator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 314317a..da245a7 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -600,11 +600,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
 	n.distance = snap.Distance
-	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From cd340b2391bf7496636cc48b3dbad115e3b0ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 13/35] fix: do not keep the name or the sensors of what a
 snapshot is restored onto

---
 device.go          | 1 +
 navigator/route.go | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index 377e584..ac94a51 100644
--- a/device.go
+++ b/device.go
@@ -763,6 +763,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..69c016a 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -215,15 +215,16 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
-		if err != nil {
+		var err error
+		if name, err = ParseName(snap.Name); err != nil {
 			return err
 		}
-		r.name = name
 	}
 
 	r.id = snap.Id
+	r.name = name
 	r.dist = snap.Distance
 	r.color = snap.Color
 	r.props = props
-- 
2.43.0


From 65a963ff104199c4c6ecb129c8f9c8cb82fc7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 14/35] fix: restore from snapshots that lack parts instead of
 panicking

---
 curve/curve.go                   | 20 +++++++++++++-------
 device.go                        |  6 +++++-
 io.go                            |  4 +++-
 navigator/navigator.go           | 25 +++++++++++++++++++++++--
 navigator/route_track_segment.go |  5 +++--
 types/battery.go                 |  8 ++++----
 types/sensor.go                  | 14 +++++++-------
 types/speed.go                   |  8 ++++----
 8 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..8375399 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -78,7 +78,11 @@ func (c *Curve) Shuffle() {
 }
 
 // Point returns a point on the curve for a given parameter t.
+// A curve without control points stays at its minimum.
 func (c *Curve) Point(t float64) Point {
+	if len(c.points) == 0 {
+		return Point{Y: c.min}
+	}
 	c.points[0].vp = c.points[0].cp
 	u := t
 	for i, p := range c.points[1:] {
@@ -129,14 +133,16 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 
 // FromSnapshot restores the curve's state from a snapshot.
 func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
-	c.mode = int(snap.Mode)
-	c.min = snap.Min
-	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
+	points := snap.GetPoints()
+	c.mode = int(snap.GetMode())
+	c.min = snap.GetMin()
+	c.max = snap.GetMax()
+	c.points = make([]point, len(points))
+	for i := 0; i < len(points); i++ {
+		vp, cp := points[i].GetVp(), points[i].GetCp()
 		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+			vp: Point{X: vp.GetX(), Y: vp.GetY()},
+			cp: Point{X: cp.GetX(), Y: cp.GetY()},
 		}
 	}
 }
diff --git a/device.go b/device.go
index ac94a51..9c21685 100644
--- a/device.go
+++ b/device.go
@@ -757,7 +757,11 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Duration = snap.Duration
 	d.status = Status(snap.Status)
 	d.navigator = new(navigator.Navigator)
-	d.navigator.FromSnapshot(snap.Navigator)
+	if snap.Navigator == nil {
+		d.navigator.FromSnapshot(new(pb.Snapshot_Navigator))
+	} else {
+		d.navigator.FromSnapshot(snap.Navigator)
+	}
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
 	d.state.Speed = d.speed.Value()
diff --git a/io.go b/io.go
index d664a69..8cf7283 100644
--- a/io.go
+++ b/io.go
@@ -91,7 +91,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
diff --git a/navigator/navigator.go b/navigator/navigator.go
index da245a7..b9c9790 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -593,10 +593,13 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.currentRouteDistance = snap.CurrentRouteDistance
 	n.currentTrackDistance = snap.CurrentTrackDistance
 	n.currentDistance = snap.CurrentDistance
+	if !n.hasPosition() {
+		n.resetIndexes()
+	}
 	n.offlineIndex = int(snap.OfflineIndex)
 	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
+		Lon: snap.GetPoint().GetLon(),
+		Lat: snap.GetPoint().GetLat(),
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
@@ -792,6 +795,24 @@ func (n *Navigator) resetIndexes() {
 	n.currentDistance = 0
 }
 
+// hasPosition checks whether the indexes are those of an element of the plan.
+// What has no elements has the position 0.
+func (n *Navigator) hasPosition() bool {
+	isPosition := func(index int, size int) bool {
+		return index == 0 || (index > 0 && index < size)
+	}
+	numTracks, numSegments := 0, 0
+	if route := n.RouteAt(n.routeIndex); route != nil {
+		numTracks = route.NumTracks()
+		if track := route.TrackAt(n.trackIndex); track != nil {
+			numSegments = track.NumSegments()
+		}
+	}
+	return isPosition(n.routeIndex, len(n.routes)) &&
+		isPosition(n.trackIndex, numTracks) &&
+		isPosition(n.segmentIndex, numSegments)
+}
+
 func (n *Navigator) hasRoute(id string) bool {
 	for i := 0; i < len(n.routes); i++ {
 		if id == n.routes[i].id {
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..4866fc9 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -78,9 +78,10 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 	if snap == nil {
 		return Segment{}
 	}
+	pointA, pointB := snap.GetPointA(), snap.GetPointB()
 	return Segment{
-		pointA:  geo.LatLonPoint{Lon: snap.PointA.Lon, Lat: snap.PointA.Lat},
-		pointB:  geo.LatLonPoint{Lon: snap.PointB.Lon, Lat: snap.PointB.Lat},
+		pointA:  geo.LatLonPoint{Lon: pointA.GetLon(), Lat: pointA.GetLat()},
+		pointB:  geo.LatLonPoint{Lon: pointB.GetLon(), Lat: pointB.GetLat()},
 		dist:    snap.Distance,
 		bearing: snap.Bearing,
 		index:   int(snap.Index),
diff --git a/types/battery.go b/types/battery.go
index ff01e80..6327d61 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -125,8 +125,8 @@ func (t *Battery) Snapshot() *proto.Snapshot_BatteryType {
 
 // FromSnapshot restores the Battery instance from a protobuf snapshot.
 func (t *Battery) FromSnapshot(snap *proto.Snapshot_BatteryType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
-	t.chargeTime = time.Duration(snap.ChargeTime)
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
+	t.chargeTime = time.Duration(snap.GetChargeTime())
 }
diff --git a/types/sensor.go b/types/sensor.go
index 39ea461..caa0cbb 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -168,12 +168,12 @@ func (t *Sensor) Snapshot() *SensorSnapshot {
 
 // FromSnapshot restores the Sensor instance from a protobuf snapshot.
 func (t *Sensor) FromSnapshot(snap *SensorSnapshot) {
-	t.id = snap.Id
-	t.name = snap.Name
-	t.min = snap.Min
-	t.max = snap.Max
-	t.valX = snap.ValX
-	t.valY = snap.ValY
+	t.id = snap.GetId()
+	t.name = snap.GetName()
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.valX = snap.GetValX()
+	t.valY = snap.GetValY()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
diff --git a/types/speed.go b/types/speed.go
index f3a5744..b558860 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -118,11 +118,11 @@ func (t *Speed) Snapshot() *proto.Snapshot_CommonType {
 
 // FromSnapshot restores the Speed instance from a protobuf snapshot.
 func (t *Speed) FromSnapshot(snap *proto.Snapshot_CommonType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
 
 func (t *Speed) isStatic() bool {
-- 
2.43.0


From 0ab431c75bbb8b5cfd3d9f74a5a9b4669bcb3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 15/35] fix: restore every track of a GeoJSON route and refuse
 incomplete documents

---
 geojson/encoding.go | 96 ++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 49 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..eebd74e 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -1,7 +1,6 @@
 package geojson
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 
@@ -9,7 +8,6 @@ import (
 	"github.com/mmadfox/go-gpsgen/navigator"
 	"github.com/mmadfox/go-gpsgen/properties"
 	"github.com/paulmach/orb"
-	"github.com/paulmach/orb/geojson"
 )
 
 var (
@@ -28,14 +26,14 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
-	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	fc, err := ParseFeatureCollection(data)
+	if err != nil {
 		return nil, err
 	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
-		if feature.Type != "Feature" {
+		if feature == nil || feature.Type != "Feature" {
 			continue
 		}
 		var (
@@ -132,7 +130,7 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 		if tracks != nil && len(tracks) != 1 {
 			return ErrInvalidRoute
 		}
-		return parseGeometry(route, tracks, geom)
+		return parseGeometry(route, infoAt(tracks, 0), geom)
 	}
 
 	if tracks != nil && len(tracks) != len(collection) {
@@ -140,84 +138,84 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		if err := parseGeometry(route, infoAt(tracks, i), collection[i]); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
-func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geometry) (err error) {
-	trackExists := len(tracks) > 0
+// infoAt returns the info of the track at the given index
+// or nil if the route is a new one.
+func infoAt(tracks []trackInfo, index int) *trackInfo {
+	if tracks == nil {
+		return nil
+	}
+	return &tracks[index]
+}
+
+func parseGeometry(route *navigator.Route, info *trackInfo, geometry orb.Geometry) error {
 	switch geom := geometry.(type) {
 	case orb.LineString:
-		var track *navigator.Track
-		var err error
-		if !trackExists {
-			track, err = navigator.NewTrack(toPoints(geom))
-		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
-		}
-		if err != nil {
-			return err
-		}
-		route.AddTrack(track)
+		return addTrack(route, info, geom)
 	case orb.MultiLineString:
-		if trackExists {
+		if info != nil {
 			return ErrInvalidRoute
 		}
 		for i := 0; i < len(geom); i++ {
-			track, err := navigator.NewTrack(toPoints(geom[i]))
-			if err != nil {
+			if err := addTrack(route, nil, geom[i]); err != nil {
 				return err
 			}
-			route.AddTrack(track)
 		}
 	case orb.Polygon:
 		if len(geom) == 0 {
-			return
+			return nil
 		}
-		var track *navigator.Track
-		var err error
-		if !trackExists {
-			track, err = navigator.NewTrack(toPoints(geom[0]))
-		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
-		}
-		if err != nil {
-			return err
-		}
-		route.AddTrack(track)
+		return addTrack(route, info, geom[0])
 	case orb.MultiPolygon:
-		if trackExists {
+		if info != nil {
 			return ErrInvalidRoute
 		}
 		for i := 0; i < len(geom); i++ {
 			if len(geom[i]) > 0 {
-				track, err := navigator.NewTrack(toPoints(geom[i][0]))
-				if err != nil {
+				if err := addTrack(route, nil, geom[i][0]); err != nil {
 					return err
 				}
-				route.AddTrack(track)
 			}
 		}
 	case orb.MultiPoint:
-		if trackExists {
+		if info != nil {
 			return ErrInvalidRoute
 		}
-		track, err := navigator.NewTrack(toPoints(geom))
+		return addTrack(route, nil, geom)
+	case nil:
+		return fmt.Errorf("%w - no geometry", ErrInvalidGeometryType)
+	default:
+		return fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
+	}
+	return nil
+}
+
+// addTrack adds a new or restored track through the points to the route.
+func addTrack(route *navigator.Route, info *trackInfo, points []orb.Point) error {
+	if info == nil {
+		track, err := navigator.NewTrack(toPoints(points))
 		if err != nil {
 			return err
 		}
 		route.AddTrack(track)
-	default:
-		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
+		return nil
 	}
-	return
+	track, err := navigator.RestoreTrack(info.ID, info.Color, toPoints(points))
+	if err != nil {
+		return err
+	}
+	if len(info.Name) > 0 {
+		_ = track.ChangeName(info.Name)
+	}
+	track.Props().Merge(info.Props)
+	route.AddTrack(track)
+	return nil
 }
 
 func toPoints(points []orb.Point) []geo.LatLonPoint {
-- 
2.43.0


From c32debfb21a4878d658546c49551fe12f826af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 16/35] fix: keep names and properties of GPX tracks and routes

---
 gpx/encoding.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..23e0d41 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -34,6 +34,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue // written without its extension, which makes it unreadable
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
@@ -63,10 +66,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
@@ -104,12 +107,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := attr(routeInfo.Attrs, "id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := attr(routeInfo.Attrs, "color")
+			routeName, _ := attr(routeInfo.Attrs, "name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +125,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := attr(trackInfo.Attrs, "color")
+				trackName, _ := attr(trackInfo.Attrs, "name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
@@ -221,6 +224,16 @@ func makeAttrs(props properties.Properties) []xml.Attr {
 	return attrs
 }
 
+// attr returns the value of the first attribute with the given name.
+func attr(attrs []xml.Attr, name string) (string, bool) {
+	for i := 0; i < len(attrs); i++ {
+		if attrs[i].Name.Local == name {
+			return attrs[i].Value, true
+		}
+	}
+	return "", false
+}
+
 func makeProps(attrs []xml.Attr) properties.Properties {
 	props := properties.Make()
 	for i := 0; i < len(attrs); i++ {
-- 
2.43.0


From 3fb5ae1f5654e97bc53d58059ca91f688610b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 17/35] fix: keep coordinates in GPX that are multiples of ten

---
 gpx/encoding.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 23e0d41..cc42d20 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 
 	"github.com/mmadfox/go-gpsgen/geo"
@@ -297,15 +298,15 @@ func copyPoints(track *navigator.Track) []gpx.GPXPoint {
 		seg := track.SegmentAt(i)
 		points = append(points, gpx.GPXPoint{
 			Point: gpx.Point{
-				Latitude:  seg.PointA().Lat,
-				Longitude: seg.PointA().Lon,
+				Latitude:  coord(seg.PointA().Lat),
+				Longitude: coord(seg.PointA().Lon),
 			},
 		})
 		if i == track.NumSegments()-1 {
 			points = append(points, gpx.GPXPoint{
 				Point: gpx.Point{
-					Latitude:  seg.PointB().Lat,
-					Longitude: seg.PointB().Lon,
+					Latitude:  coord(seg.PointB().Lat),
+					Longitude: coord(seg.PointB().Lon),
 				},
 			})
 		}
@@ -313,6 +314,22 @@ func copyPoints(track *navigator.Track) []gpx.GPXPoint {
 	return points
 }
 
+// coord returns what to write for a coordinate. The writer keeps ten decimals
+// and trims trailing zeros of whole numbers too: 10 becomes 1 and -0 becomes -.
+// Multiples of ten are therefore moved by the last decimal towards zero.
+func coord(v float64) float64 {
+	const lastDecimal = 1e-10
+	r := 10 * math.Round(v/10)
+	switch {
+	case math.Abs(v-r) > 0.6*lastDecimal:
+		return v
+	case r == 0:
+		return 0
+	default:
+		return r - math.Copysign(lastDecimal, r)
+	}
+}
+
 func makePoints(gpxPoints []gpx.GPXPoint) []geo.LatLonPoint {
 	points := make([]geo.LatLonPoint, 0, len(gpxPoints))
 	for i := 0; i < len(gpxPoints); i++ {
-- 
2.43.0


From 0e63b2d60ac011d24c263d8e49c332c653138bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 18/35] fix: device reads its state, sensors and finish flag
 under the lock, State returns a copy

---
 device.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 9c21685..0be552e 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
@@ -366,10 +366,11 @@ func (d *Device) Status() Status {
 }
 
 // State returns a protobuf representation of the current device state.
+// The returned message is a copy, later changes of the device do not touch it.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
@@ -447,8 +448,8 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
@@ -715,6 +716,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -731,11 +735,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From bbe79f8aa42c6e6541e993065ccac327d36dad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 19/35] fix: packets include every attached device when the
 packet size is reached

---
 generator.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..753bb5e 100644
--- a/generator.go
+++ b/generator.go
@@ -231,23 +231,21 @@ loop:
 			for i := 0; i < len(g.devices); i++ {
 				g.devices[i].Next(tick)
 			}
+			devices := append([]*Device(nil), g.devices...)
+			g.mu.RUnlock()
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
-					g.mu.RUnlock()
+				g.index++
+				if g.index == g.packetSize {
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From d9a899c6e0278adc0949455e8efb45752e6268d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 20/35] fix: closing during a flush neither blocks the
 generator nor leaks its workers

---
 generator.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/generator.go b/generator.go
index 753bb5e..5386e28 100644
--- a/generator.go
+++ b/generator.go
@@ -261,11 +261,8 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
-	
+	defer g.wg.Done()
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -334,35 +331,51 @@ func (g *Generator) doNext() {
 
 func (g *Generator) flush() {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
-			return
+		if g.push(slice{from: 0, to: g.index}) {
+			g.wait()
 		}
-		<-g.waitCh
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
-			}
 			var s slice
 			s.from = i * step
 			s.to = i*step + step
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.push(s) {
+				return
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
+			if !g.wait() {
 				return
 			}
-			<-g.waitCh
 		}
 	}
 }
 
+// push hands a slice of the packet to the workers unless the generator is closed.
+func (g *Generator) push(s slice) bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.sliceCh <- s:
+		return true
+	}
+}
+
+// wait waits until a worker is done with its slice or the generator is closed.
+func (g *Generator) wait() bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case <-g.waitCh:
+		return true
+	}
+}
+
 func (g *Generator) isClosed() bool {
 	select {
 	case <-g.ctx.Done():
-- 
2.43.0


From f766b54bd7c857384cf26d742ac0be19b8692224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 21/35] fix: read generator callbacks under the lock

---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index 5386e28..789a771 100644
--- a/generator.go
+++ b/generator.go
@@ -288,10 +288,14 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
+			if err != nil && onError != nil {
+				onError(err)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if g.isClosed() {
@@ -321,10 +325,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From 299e9f0edb47618efbd82b7fc7e8c96634506b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 22/35] fix: do not deliver a packet that could not be encoded

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 789a771..6519476 100644
--- a/generator.go
+++ b/generator.go
@@ -292,8 +292,10 @@ func (g *Generator) doWorker(n int) {
 			onError, onPacket := g.onError, g.onPacket
 			g.mu.RUnlock()
 
-			if err != nil && onError != nil {
-				onError(err)
+			if err != nil {
+				if onError != nil {
+					onError(err)
+				}
 			} else if onPacket != nil {
 				onPacket(data)
 			}
-- 
2.43.0


From 2b091f65abb20cb41e69ebbe46debea40ad3fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 23/35] fix: swapped offline and elevation bounds do not become
 negative

---
 navigator/options.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..bd8a1e3 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -65,6 +65,9 @@ func (o *navigatorOptions) validateElevation() error {
 	if o.elevationMin > o.elevationMax {
 		o.elevationMin = o.elevationMax - 1
 	}
+	if o.elevationMin < MinElevation {
+		o.elevationMin = MinElevation
+	}
 	if o.elevationMax < o.elevationMin {
 		o.elevationMax = o.elevationMin + 1
 	}
@@ -87,6 +90,9 @@ func (o *navigatorOptions) validateOffline() error {
 	if o.minOffline > o.maxOffline {
 		o.minOffline = o.maxOffline - 1
 	}
+	if o.minOffline < MinOffline {
+		o.minOffline = MinOffline
+	}
 	if o.maxOffline < o.minOffline {
 		o.maxOffline = o.minOffline + 1
 	}
-- 
2.43.0


From 6710c179d7c7cbcb5b1683cdb17de0c63bb74717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 24/35] fix: a random polygon without points has the default
 number of points

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From d82d8df193ea569761a8f07cb943684a567473c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 25/35] fix: random values with swapped limits lie between them

---
 types/random.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/random.go b/types/random.go
index 85c3356..5e0292d 100644
--- a/types/random.go
+++ b/types/random.go
@@ -26,6 +26,7 @@ func (r *Random) Value() int {
 }
 
 // NewRandom creates a new Random instance with the specified minimum and maximum values.
+// Swapped values are put in order.
 func NewRandom(min, max int) *Random {
 	if min < 0 {
 		min = 0
@@ -40,6 +41,10 @@ func NewRandom(min, max int) *Random {
 		max = 1
 	}
 
+	if min > max {
+		min, max = max, min
+	}
+
 	return &Random{
 		min: min,
 		max: max,
-- 
2.43.0


From 0e9706d5cf8db18f1198288a8065560544c5abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 26/35] fix: a random polygon whose offsets are all zero has no
 NaN coordinates

---
 random/polygon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/random/polygon.go b/random/polygon.go
index 220b25c..a9c93ac 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -37,6 +37,9 @@ func Polygon(points int, zoom float64) [][2]float64 {
 		}
 	}
 	last := offsets[len(offsets)-1]
+	if last == 0 {
+		last = 1
+	}
 	for i := 0; i < points; i++ {
 		cur := (offsets[i] * mp * math.Phi) / last
 		factor := randFactor(minFactor, maxFactor)
-- 
2.43.0


From b003f11c6759158d7b1aaaccc02e5e5b7b4d930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:17 +0000
Subject: [PATCH 27/35] fix: a constant speed above the limit is refused

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index b558860..c8a6eb6 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From 6df224f3c958c3e23325235a4fa9abf4526886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 28/35] fix: restoring a snapshot does not stop an attached
 device

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 0be552e..a8fe461 100644
--- a/device.go
+++ b/device.go
@@ -757,7 +757,9 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running {
+		d.status = Status(snap.Status)
+	}
 	d.navigator = new(navigator.Navigator)
 	if snap.Navigator == nil {
 		d.navigator.FromSnapshot(new(pb.Snapshot_Navigator))
-- 
2.43.0


From b6765462f9264132aec587562ec830c6d633c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 29/35] fix: the distance of a navigator follows changes of its
 routes

---
 navigator/navigator.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index b9c9790..10b21c4 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -22,7 +22,6 @@ type Navigator struct {
 	point                  geo.LatLonPoint
 	elevation              *types.Sensor
 	offline                *types.Random
-	distance               float64
 	skipOffline            bool
 	version                int
 }
@@ -186,7 +185,11 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 
 // Distance returns the total distance of the navigator's routes.
 func (n *Navigator) Distance() float64 {
-	return n.distance
+	distance := 0.0
+	for i := 0; i < len(n.routes); i++ {
+		distance += n.routes[i].dist
+	}
+	return distance
 }
 
 // CurrentDistance returns the current accumulated distance.
@@ -337,7 +340,7 @@ func (n *Navigator) OfflineDuration() int {
 func (n *Navigator) Update(state *proto.Device) {
 	n.normalizeDeviceState(state)
 
-	state.Distance.Distance = n.distance
+	state.Distance.Distance = n.Distance()
 	state.Distance.CurrentDistance = n.currentDistance
 	state.Distance.RouteDistance = n.RouteDistance()
 	state.Distance.CurrentRouteDistance = n.currentRouteDistance
@@ -564,7 +567,7 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 		OfflineIndex:           int64(n.offlineIndex),
 		Point:                  &proto.Snapshot_PointLatLon{Lon: n.point.Lon, Lat: n.point.Lat},
 		Elevation:              n.elevation.Snapshot(),
-		Distance:               n.distance,
+		Distance:               n.Distance(),
 		SkipOffline:            n.skipOffline,
 		Version:                int64(n.version),
 	}
@@ -608,13 +611,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.distance = snap.Distance
 	n.version = int(snap.Version)
 }
 
 func (n *Navigator) jump(distance float64) bool {
-	if distance > n.distance {
-		distance = n.distance
+	if total := n.Distance(); distance > total {
+		distance = total
 	}
 	if !(distance >= 1) {
 		return false
@@ -700,10 +702,9 @@ func (n *Navigator) jump(distance float64) bool {
 	return true
 }
 
-// Reset resets the Navigator's state, including indexes and calculated route distance.
+// Reset resets the Navigator's state, including indexes and travelled distances.
 func (n *Navigator) Reset() {
 	n.resetIndexes()
-	n.calcRouteDistance()
 }
 
 func (n *Navigator) updateDist(newDist float64) {
@@ -778,13 +779,6 @@ func (n *Navigator) nextRoute() {
 	n.currentDistance = 0.1
 }
 
-func (n *Navigator) calcRouteDistance() {
-	n.distance = 0
-	for i := 0; i < len(n.routes); i++ {
-		n.distance += n.routes[i].dist
-	}
-}
-
 func (n *Navigator) resetIndexes() {
 	n.routeIndex = 0
 	n.trackIndex = 0
-- 
2.43.0


From ec26166d1a3df86561bd35fcd1183bc5b83f4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 30/35] fix: the UTM zone of longitude 180 is zone 1

---
 navigator/location.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/navigator/location.go b/navigator/location.go
index d4d54c2..53f4a75 100644
--- a/navigator/location.go
+++ b/navigator/location.go
@@ -44,6 +44,9 @@ func setDMS(lat, lon float64, latDMS *proto.Device_Location_DMS, lonDMS *proto.D
 }
 
 func setUTM(lat, lon float64, u *proto.Device_Location_UTM) {
+	if lon >= 180 { // zones start at 180 degrees west
+		lon -= 360
+	}
 	e, n, z := utm.ToUTM(lat, lon)
 	hemisphere := "S"
 	if z.North {
-- 
2.43.0


From b619af54c0fd53c07d73c6a705ed1d47473448ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 31/35] fix: publish the state of a device also after steps
 that do not move it

---
 device.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index a8fe461..482176e 100644
--- a/device.go
+++ b/device.go
@@ -659,8 +659,6 @@ func (d *Device) Next(tick float64) bool {
 	d.state.Speed = nextSpeed
 
 	if ok := d.navigator.NextLocation(seconds, nextSpeed); !ok {
-		d.updateOfflineState()
-
 		if d.navigator.IsFinish() {
 			d.state.Duration = 0
 			d.speed.Shuffle()
@@ -668,8 +666,11 @@ func (d *Device) Next(tick float64) bool {
 			for i := 0; i < len(d.sensors); i++ {
 				d.sensors[i].Shuffle()
 			}
-			d.updateState()
 		}
+		if d.isNotValidNS(d.navigator.Sum()) {
+			d.updateRoutes()
+		}
+		d.updateState()
 		return false
 	}
 
@@ -851,11 +852,6 @@ func (d *Device) updateState() {
 	}
 }
 
-func (d *Device) updateOfflineState() {
-	d.state.OfflineDuration = int64(d.navigator.OfflineDuration())
-	d.state.IsOffline = d.navigator.IsOffline()
-}
-
 func (d *Device) updateSensors() {
 	d.state.Sensors = make([]*pb.Device_Sensor, 0, len(d.sensors))
 	for i := 0; i < len(d.sensors); i++ {
-- 
2.43.0


From 55ee0a258a9896f0d4cfa5afd5921fe303cdacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:34 +0000
Subject: [PATCH 32/35] fix: keep identifiers of tracks that begin or end with
 a space in GPX

---
 gpx/encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index cc42d20..cbf74e6 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -66,7 +67,11 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("name", track.Name().String())
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
-			trackNode.Data = track.ID()
+			trackNode.SetAttr("id", track.ID())
+			trackNode.Data = track.ID() // trimmed by the writer
+			if strings.TrimSpace(trackNode.Data) == "" {
+				trackNode.Data = "track" // nodes without data are not written
+			}
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
@@ -124,7 +129,10 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			for j := 0; j < len(gpxTrack.Segments); j++ {
 				gpxSegment := gpxTrack.Segments[j]
 				trackInfo := root.Nodes[i].Nodes[j]
-				trackID := trackInfo.Data
+				trackID, ok := attr(trackInfo.Attrs, "id")
+				if !ok {
+					trackID = trackInfo.Data
+				}
 				trackProps := makeProps(trackInfo.Attrs)
 				color, _ := attr(trackInfo.Attrs, "color")
 				trackName, _ := attr(trackInfo.Attrs, "name")
-- 
2.43.0


From be0dd64fcf848131e2bc50ec622be6b59d448031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:09 +0000
Subject: [PATCH 33/35] fix: devices made of the same options have different
 identifiers

---
 device_options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..f23543f 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,10 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
-	}
 	s.Id = o.ID
+	if len(s.Id) == 0 {
+		s.Id = uuid.NewString()
+	}
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From 046284b3f0823f15a8eeff98773e27a0a0843cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:08 +0000
Subject: [PATCH 34/35] fix: a restored device does not count the skipped steps
 of the state it replaced

---
 device.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device.go b/device.go
index 482176e..9e1d08d 100644
--- a/device.go
+++ b/device.go
@@ -750,6 +750,8 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	// steps skipped before belong to the previous state
+	d.resetTick()
 	d.state = initDeviceState()
 	d.state.Id = snap.Id
 	d.state.UserId = snap.UserId
-- 
2.43.0


From 0696ed07a3e4227d3d9328875a1d8d310b07afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:57 +0000
Subject: [PATCH 35/35] fix: do not deliver packets that were reset while the
 generator was closed

---
 generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator.go b/generator.go
index 6519476..872da72 100644
--- a/generator.go
+++ b/generator.go
@@ -284,6 +284,11 @@ func (g *Generator) doWorker(n int) {
 
 			buf := make([]byte, 0, g.workerSize)
 			g.dmu.RLock()
+			if g.isClosed() {
+				// the packet may have been reset meanwhile
+				g.dmu.RUnlock()
+				return
+			}
 			pck.Devices = g.packet.Devices[s.from:s.to]
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
-- 
2.43.0

