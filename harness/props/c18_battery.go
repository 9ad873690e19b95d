package props

import (
	"time"

	"github.com/mmadfox/go-gpsgen/types"
	"verifharness/vh"
)

// Any battery under any use, then a reset.
//
//vh:harness prop=C18 mode=ideal
func BatteryDischarge() {
	min, max := vh.Float("min", 0, 100), vh.Float("max", 0, 100)
	charge := time.Duration(vh.Int64("charge", 0, int64(100*time.Hour)))
	vh.Assume(vh.Or(charge == 0, charge >= time.Second))
	b, err := types.NewBattery(min, max, charge)
	vh.Assert(err == nil, "battery bounds within [0,100] are accepted")
	if min > max {
		min = max
	}
	vh.Assert(vh.And(b.Min() == min, b.Max() == max, b.ChargeTime() == charge), "a battery keeps its bounds and charge time")
	full := b.Value()
	vh.Assert(vh.And(full >= min, full <= max), "a new battery is within its bounds")
	if charge > 0 {
		vh.Assert(full == max, "a new battery is full")
	}
	used, last := 0.0, full
	for k := vh.Choose("steps", 3); k > 0; k-- {
		dt := vh.Float("dt", 0, 1e6)
		b.Next(dt)
		used += dt
		v := b.Value()
		vh.Assert(vh.And(v >= min, v <= max), "a battery is within its bounds")
		vh.Assert(v <= last, "a battery never charges while in use")
		vh.Assert(vh.Implies(b.IsLow(), v == min), "a low battery is at its minimum")
		vh.Assert(vh.Implies(vh.And(v == min, min < max), b.IsLow()), "a battery at its minimum is low")
		if charge > 0 {
			vh.Assert(vh.Implies(used >= charge.Seconds(), v == min), "a battery is at its minimum when its time has run out")
			left := 100 - 100*used/charge.Seconds()
			vh.Assert(vh.Implies(vh.And(left > min, left < max), vh.Near(v, left, 1e-6)), "a battery discharges evenly")
		}
		last = v
	}
	b.Reset()
	vh.Assert(b.Value() == full, "a reset battery is as new")
	vh.Cover("reset")
}

// Battery bounds are validated.
//
//vh:harness prop=C18,C23 mode=ideal
func BatteryValidation() {
	min, max := vh.Float("min", -1e3, 1e3), vh.Float("max", -1e3, 1e3)
	charge := time.Duration(vh.Int64("charge", -int64(time.Hour), int64(time.Hour)))
	b, err := types.NewBattery(min, max, charge)
	if vh.Or(min < 0, max > 100) {
		vh.Assert(vh.And(err != nil, b == nil), "battery bounds outside [0,100] are rejected")
		vh.Cover("rejected")
		return
	}
	if max < 0 {
		vh.Assert(vh.And(err != nil, b == nil), "a battery without charge is rejected")
		return
	}
	vh.Assert(err == nil, "battery bounds within [0,100] are accepted")
	vh.Assert(vh.And(b.Min() <= b.Max(), b.Min() >= 0, b.Max() <= 100), "battery bounds are ordered")
	vh.Assert(b.ChargeTime() >= 0, "a battery has a charge time")
	if charge < 0 {
		vh.Assert(b.ChargeTime() == 9*time.Hour, "the default charge time")
		vh.Cover("default")
	}
}
