package props

import (
	"time"

	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// Going offline with any valid bounds and any random value.
//
//vh:harness prop=C04 mode=ideal
func OfflineWithinBounds() {
	min, max := vh.Int("min", 0, 3600), vh.Int("max", 0, 3600)
	vh.Assume(min <= max)
	n := mustNav(navigator.WithOffline(min, max))
	n.ToOffline()
	k := n.OfflineDuration()
	if max == 0 {
		vh.Assert(vh.And(k >= 0, k <= 10), "default offline bounds")
	} else {
		vh.Assert(vh.And(k >= min, k <= max), "offline duration within its bounds")
	}
	vh.Assert(vh.Iff(n.IsOffline(), k > 0), "offline while the duration is positive")
	st := new(proto.Device)
	n.Update(st)
	vh.Assert(vh.And(st.IsOffline == (k > 0), st.OfflineDuration == int64(k)), "published offline state")
}

// Any bounds, ordered or not: rejected when outside [0,3600], and otherwise the duration
// stays within [0,3600].
//
//vh:harness prop=C04,C23 mode=ideal
func OfflineBoundsValidation() {
	min, max := vh.Int("min", -10000, 10000), vh.Int("max", -10000, 10000)
	n, err := navigator.New(navigator.WithOffline(min, max))
	if vh.Or(min < 0, max > 3600) {
		vh.Assert(err != nil, "offline bounds outside [0,3600] are rejected")
		vh.Cover("rejected")
		return
	}
	if err != nil {
		vh.Assert(max < 0, "offline bounds within [0,3600] are accepted")
		return
	}
	n.ToOffline()
	vh.Assert(vh.And(n.OfflineDuration() >= 0, n.OfflineDuration() <= 3600), "offline duration within [0,3600]")
	vh.Cover("accepted")
}

// Steps while offline, from any admissible position and any remaining duration.
//
//vh:harness prop=C04 mode=ideal
func OfflineCountsDown() {
	w := plan(chooseShape(), true)
	w.place()
	k := vh.Int("offline", 1, 3600)
	w.snap.OfflineIndex = int64(k)
	w.load(false)
	before := w.n.Snapshot()
	vh.Assert(!w.n.NextLocation(vh.Float("tick", 0, 1e4), vh.Float("speed", 0, 1e3)), "an offline step does not move")
	vh.Assert(w.n.OfflineDuration() == k-1, "an offline step counts down by one")
	vh.Assert(vh.Iff(w.n.IsOffline(), k > 1), "online again when the duration has run out")
	before.OfflineIndex = int64(k - 1)
	sameSnap(w.n, before, "an offline step changes nothing else")
}

// With offline skipped the navigator is never offline: any position, one arbitrary step or
// an explicit request.
//
//vh:harness prop=C04 mode=ideal
func OfflineSkipped() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(true)
	if vh.Choose("op", 2) == 0 {
		w.n.ToOffline()
	} else {
		w.n.NextLocation(vh.Float("tick", 0, 1e4), vh.Float("speed", 0, 1e3))
	}
	vh.Assert(vh.And(!w.n.IsOffline(), w.n.OfflineDuration() == 0), "never offline when skipped")
}

// A restored navigator whose limits may be in any order.
//
//vh:harness prop=C04 mode=ideal
func OfflineRestoredLimits() {
	w := plan([][]int{{1}}, false)
	w.place()
	min, max := vh.Int("min", 0, 3600), vh.Int("max", 0, 3600)
	w.snap.OfflineMin, w.snap.OfflineMax = int64(min), int64(max)
	w.n = mustNav()
	w.n.FromSnapshot(w.snap)
	w.n.ToOffline()
	k := w.n.OfflineDuration()
	vh.Assume(vh.Or(min > 0, max > 0))
	vh.Assert(vh.Or(vh.And(k >= min, k <= max), vh.And(k >= max, k <= min), vh.And(max == 0, k <= 3600)), "offline duration within its bounds")
	vh.Assert(vh.And(k >= 0, k <= 3600), "offline duration within its bounds")
	vh.Assert(vh.Iff(w.n.IsOffline(), k > 0), "offline while the duration is positive")
}

// A device at the end of a track of any plan goes offline within its limits, which end in as
// many steps.
//
//vh:harness prop=C04 mode=ideal time=60s
func DeviceGoesOffline() {
	w := plan(deviceShape(), false)
	w.place()
	min, max := vh.Int("min", 0, 3600), vh.Int("max", 1, 3600)
	vh.Assume(min <= max)
	w.snap.OfflineMin, w.snap.OfflineMax = int64(min), int64(max)
	g := w.device(1, true, true)
	vh.Assume(g.used <= 1)
	g.all.Battery.ChargeTime = int64(100 * time.Hour) // never low
	g.d.FromSnapshot(g.all)
	d := g.d
	if d.Next(vh.Float("tick", 0, 1e4)) {
		return
	}
	k := int(d.State().OfflineDuration)
	vh.Assert(vh.And(k >= min, k <= max), "a device is offline within its limits at the end of a track")
	vh.Assert(vh.Iff(d.IsOffline(), k > 0), "offline while the duration is positive")
	if k > 0 {
		vh.Assert(!d.Next(1), "an offline step does not move")
		vh.Assert(d.State().OfflineDuration == int64(k-1), "an offline step counts down by one")
	}
	vh.Cover("end of track")
}

// Going offline again: the duration of the last request counts, whatever was left.
//
//vh:harness prop=C04 mode=ideal
func OfflineAgain() {
	w := plan([][]int{{1}}, false)
	w.place()
	min, max := vh.Int("min", 0, 3600), vh.Int("max", 1, 3600)
	vh.Assume(min <= max)
	w.snap.OfflineMin, w.snap.OfflineMax = int64(min), int64(max)
	w.snap.OfflineIndex = int64(vh.Int("offline", 0, 3600))
	w.n = mustNav()
	w.n.FromSnapshot(w.snap)
	for i := 0; i < 2; i++ {
		w.n.ToOffline()
		k := w.n.OfflineDuration()
		vh.Assert(vh.And(k >= min, k <= max), "offline duration within its bounds")
		vh.Assert(vh.Iff(w.n.IsOffline(), k > 0), "offline while the duration is positive")
	}
}
