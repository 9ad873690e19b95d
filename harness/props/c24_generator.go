package props

import (
	"sync"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/proto"
	gproto "google.golang.org/protobuf/proto"
	"verifharness/vh"
)

// idle is a device without routes.
func idle(id string, dur float64) *gpsgen.Device {
	d := new(gpsgen.Device)
	d.FromSnapshot(&proto.Snapshot{
		Id: id, Model: "the-model", Status: int64(gpsgen.Stopped), Duration: dur,
		Navigator: &proto.Snapshot_Navigator{Elevation: elevSnap(), SkipOffline: true},
		Speed:     &proto.Snapshot_CommonType{Min: 2, Max: 2, Val: 2, Gen: curveOf(2, 2, 2, 2)},
		Battery:   &proto.Snapshot_BatteryType{Min: 0, Max: 100, Val: 0, ChargeTime: int64(time.Hour)},
	})
	return d
}

// moving is a device on a track of a million metres.
func moving(id string, dur float64) *gpsgen.Device {
	d := new(gpsgen.Device)
	d.FromSnapshot(&proto.Snapshot{
		Id: id, Model: "the-model", Status: int64(gpsgen.Stopped), Duration: dur,
		Navigator: &proto.Snapshot_Navigator{
			Elevation: elevSnap(), SkipOffline: true, Distance: 1e6,
			Routes: []*proto.Snapshot_Navigator_Route{{
				Id: "route-" + id, Distance: 1e6, Color: "#ff0000",
				Tracks: []*proto.Snapshot_Navigator_Route_Track{{
					Id: "track-" + id, Distance: 1e6, Color: "#00ff00",
					Segmenets: []*proto.Snapshot_Navigator_Route_Track_Segment{{
						PointA: &proto.Snapshot_PointLatLon{Lat: 10, Lon: 20}, PointB: &proto.Snapshot_PointLatLon{Lat: 11, Lon: 21},
						Distance: 1e6, Bearing: 45, Rel: -1,
					}},
				}},
			}},
			Point: &proto.Snapshot_PointLatLon{Lat: 10, Lon: 20},
		},
		Speed:   &proto.Snapshot_CommonType{Min: 2, Max: 2, Val: 2, Gen: curveOf(2, 2, 2, 2)},
		Battery: &proto.Snapshot_BatteryType{Min: 0, Max: 100, Val: 0, ChargeTime: int64(1000 * time.Hour)},
	})
	return d
}

// The registry of a generator under any sequence of attaching, detaching and looking up
// devices of any identifiers.
//
//vh:harness prop=C24 mode=ideal
func GeneratorRegistry() {
	gen := gpsgen.New(nil)
	other := gpsgen.New(nil)
	ids := []string{vh.Str("id", 1, 100), vh.Str("id", 1, 100), vh.Str("id", 1, 100)}
	vh.Assume(vh.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
	var devs []*gpsgen.Device
	for _, id := range ids {
		devs = append(devs, idle(id, 0))
	}
	vh.Assert(gen.Attach(nil) == nil && gen.NumDevices() == 0, "attaching nothing changes nothing")
	var in []int // attached devices in order
	check := func() {
		vh.Assert(gen.NumDevices() == len(in), "the number of attached devices")
		k := 0
		gen.Each(func(i int, d *gpsgen.Device) bool {
			vh.Assert(i == k && k < len(in), "devices are visited in order")
			vh.Assert(d == devs[in[k]], "the attached devices are visited")
			k++
			return true
		})
		vh.Assert(k == len(in), "every attached device is visited")
		for j, d := range devs {
			on := false
			for _, x := range in {
				on = on || x == j
			}
			vh.Assert(gen.HasTracker(ids[j]) == on, "an attached device is known")
			got, ok := gen.Lookup(ids[j])
			vh.Assert(ok == on, "an attached device is found")
			vh.Assert(on && got == d || !on && got == nil, "the device of the identifier is found")
			vh.Assert((d.Status() == gpsgen.Running) == on, "an attached device runs")
			vh.Assert((d.Status() == gpsgen.Stopped) == !on, "a detached device is stopped")
		}
	}
	check()
	n := 3
	if vh.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		op := vh.Choose("op", 5)
		if op == 4 {
			d := devs[vh.Choose("restore", 2)]
			was := d.Status()
			data, err := d.MarshalBinary()
			vh.Assert(err == nil && d.UnmarshalBinary(data) == nil, "a device is restored")
			vh.Assert(d.Status() == was, "restoring neither starts nor stops a device")
			continue
		}
		if op < 3 {
			on := -1
			for k, x := range in {
				if x == op {
					on = k
				}
			}
			err := gen.Attach(devs[op])
			vh.Assert((err != nil) == (on >= 0), "a device is attached once")
			if on < 0 {
				in = append(in, op)
			} else {
				vh.Assert(other.Attach(devs[op]) != nil && other.NumDevices() == 0, "a running device is not attached to another generator")
			}
			continue
		}
		id := vh.Str("detach", 0, 100)
		at := -1
		for k, x := range in {
			if ids[x] == id {
				at = k
			}
		}
		vh.Assert(gen.Detach(id) == nil, "detaching does not fail")
		if at >= 0 {
			in = append(append([]int{}, in[:at]...), in[at+1:]...)
		}
		_, ok := gen.Lookup(id)
		vh.Assert(!ok && !gen.HasTracker(id), "a detached device is gone")
	}
	check()
	// visiting stops when asked
	k := 0
	gen.Each(func(int, *gpsgen.Device) bool { k++; return false })
	vh.Assert(k == min(1, len(in)), "visiting stops when asked")
	vh.Cover("registry")
}

// Detaching devices in any order keeps the order of the others.
//
//vh:harness prop=C24 mode=ideal
func GeneratorOrder() {
	gen := gpsgen.New(nil)
	var in []*gpsgen.Device
	n := 6
	for i := 0; i < n; i++ {
		d := idle(idx("device", i), 0)
		vh.Assert(gen.Attach(d) == nil, "a device is attached")
		in = append(in, d)
	}
	for k := 0; k < 2; k++ {
		at := vh.Choose("detach", len(in))
		vh.Assert(gen.Detach(in[at].ID()) == nil, "a device is detached")
		if again := in[at]; vh.Choose("again", 2) == 1 {
			vh.Assert(gen.Attach(again) == nil, "a detached device is attached again")
			in = append(append(append([]*gpsgen.Device{}, in[:at]...), in[at+1:]...), again)
		} else {
			in = append(append([]*gpsgen.Device{}, in[:at]...), in[at+1:]...)
		}
		j := 0
		gen.Each(func(i int, d *gpsgen.Device) bool {
			vh.Assert(i == j && j < len(in) && d == in[j], "devices are visited in the order they were attached in")
			j++
			return true
		})
		vh.Assert(j == len(in) && gen.NumDevices() == j, "every attached device is visited")
	}
	vh.Cover("order")
}

// Devices of the same identifier are attached and detached one by one: what was attached runs
// and is visited, whatever its identifier.
//
//vh:harness prop=C24 mode=ideal
func GeneratorSameIdentifiers() {
	gen := gpsgen.New(nil)
	id := vh.Str("id", 1, 36)
	devs := []*gpsgen.Device{idle(id, 1), idle(vh.Str("id", 1, 36), 2), idle(id, 3)}
	var in []*gpsgen.Device
	for _, d := range devs {
		if gen.Attach(d) == nil {
			in = append(in, d)
		}
	}
	check := func() {
		vh.Assert(gen.NumDevices() == len(in), "the number of attached devices")
		k := 0
		gen.Each(func(i int, d *gpsgen.Device) bool {
			vh.Assert(i == k && k < len(in), "devices are visited in order")
			vh.Assert(d == in[k], "the attached devices are visited")
			k++
			return true
		})
		vh.Assert(k == len(in), "every attached device is visited")
		for _, d := range devs {
			on := false
			for _, x := range in {
				on = on || x == d
			}
			vh.Assert((d.Status() == gpsgen.Running) == on, "a device that runs is attached")
		}
	}
	check()
	for range devs {
		if !gen.HasTracker(id) {
			break
		}
		vh.Assert(gen.Detach(id) == nil, "a device is detached")
		var rest []*gpsgen.Device
		gone := 0
		for _, d := range in {
			if d.ID() == id && d.Status() == gpsgen.Stopped {
				gone++
				continue
			}
			rest = append(rest, d)
		}
		vh.Assert(gone >= 1, "a device of the identifier is stopped")
		in = rest
		check()
	}
	vh.Assert(!gen.HasTracker(id), "every device can be detached")
	vh.Cover("same")
}

// collector decodes the packets of a generator.
type collector struct {
	first []byte
	msg   *proto.Packet
	mu    sync.Mutex
	seen  map[string]int
	devs  map[string][]*proto.Device
	bad   int
	total int
	stamp int64
}

func (c *collector) packet(b []byte) int {
	p, err := gpsgen.PacketFromBytes(b)
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil {
		c.bad++
		return c.total
	}
	if c.first == nil {
		c.first, c.msg = b, p
	}
	c.stamp = p.Timestamp
	if len(p.Devices) == 0 || p.Timestamp == 0 {
		c.bad++
	}
	for _, d := range p.Devices {
		c.seen[d.Id]++
		c.total++
		c.devs[d.Id] = append(c.devs[d.Id], d)
	}
	return c.total
}

// One step of a generator delivers every attached device exactly once, for numbers of
// devices around every limit of the packets.
//
//vh:harness prop=C25 mode=ideal time=60s
func PacketsComplete() {
	sizes := [][2]int{{1, 1}, {2, 1}, {2, 515}, {3, 700}, {1, 1025}, {2, 1024}, {32, 65}, {32, 97}}
	if vh.Thorough() {
		sizes = append(sizes, [][2]int{{2, 3}, {2, 514}, {2, 1023}, {2, 1025}, {32, 64}, {32, 95}, {1, 1023}, {1, 1024}, {3, 344}, {3, 345}, {5, 1024}, {5, 1027}, {7, 2047}, {2, 2048}, {2, 2049}, {32, 1500}, {64, 80}, {64, 81}, {64, 127}, {1024, 1025}}...)
	}
	c := sizes[vh.Choose("size", len(sizes))]
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, PacketSize: 1024, NumWorkers: c[0]})
	deliver(gen, c[1], 1+vh.Choose("ticks", 2))
}

// deliver attaches n devices, runs a number of steps and compares what arrives.
func deliver(gen *gpsgen.Generator, n, ticks int) {
	vh.Ticks(ticks)
	dur := vh.Float("duration", 1, 1e6)
	var devs []*gpsgen.Device
	for i := 0; i < n; i++ {
		d := idle(idx("device-", i), dur)
		if i == 0 {
			d = moving(idx("device-", i), dur)
		}
		devs = append(devs, d)
		vh.Assert(gen.Attach(d) == nil, "devices are attached")
	}
	c := &collector{seen: map[string]int{}, devs: map[string][]*proto.Device{}}
	failed := 0
	gen.OnError(func(error) { failed++ })
	steps := 0
	gen.OnNext(func() { steps++ })
	gen.OnPacket(func(b []byte) {
		if c.packet(b) >= n*ticks {
			gen.Close()
		}
	})
	msg := vh.NoDeadlock(gen.Run)
	if n == 0 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	exact := true
	for i := 0; i < n; i++ {
		exact = exact && c.seen[idx("device-", i)] == ticks
	}
	vh.Assert(exact, "every attached device is delivered exactly once in every step")
	vh.Assert(c.total == n*ticks, "only attached devices are delivered")
	vh.Assert(msg == "", "the generator runs until it is closed")
	vh.Assert(c.bad == 0, "every packet holds devices and can be decoded")
	vh.Assert(failed == 0, "there are no errors")
	again := new(proto.Packet)
	vh.Assert(gproto.Unmarshal(c.first, again) == nil && gproto.Equal(again, c.msg), "a packet stays as it was delivered")
	// what was delivered is the state of the device after the step
	sum := dur
	for _, p := range c.devs[idx("device-", 0)][:ticks] {
		vh.Assert(p.Tick >= 1, "a step takes at least a second")
		sum += p.Tick
		vh.Assert(vh.Near(p.Duration, sum, 1e-6), "steps are delivered in order")
		vh.Assert(p.Model == "the-model", "the state is delivered")
	}
	vh.Cover("delivered")
}

// The seconds of a step are the time since the previous one, for ticks up to an hour late.
//
//vh:harness prop=C25 mode=ideal
func ElapsedTime() {
	vh.LateTicks(time.Hour)
	vh.Ticks(3)
	gen := gpsgen.New(&gpsgen.Options{Interval: []time.Duration{1400 * time.Millisecond, 900 * time.Millisecond}[vh.Choose("interval", 2)], NumWorkers: 1})
	d := moving("device-0", 1)
	gen.Attach(d)
	c := &collector{seen: map[string]int{}, devs: map[string][]*proto.Device{}}
	var at []float64
	var stamp, now []int64
	start := time.Now()
	gen.OnPacket(func(b []byte) {
		n := c.packet(b)
		c.mu.Lock()
		at = append(at, time.Since(start).Seconds())
		stamp = append(stamp, c.stamp)
		now = append(now, time.Now().Unix())
		c.mu.Unlock()
		if n >= 3 {
			gen.Close()
		}
	})
	vh.Assert(vh.NoDeadlock(gen.Run) == "", "the generator runs until it is closed")
	c.mu.Lock()
	defer c.mu.Unlock()
	ds := c.devs["device-0"]
	vh.Assert(len(ds) >= 3, "every step is delivered")
	sum, last := 0.0, 0.0
	for i := 0; i < 3; i++ {
		sum += ds[i].Tick
		dt := at[i] - last
		last = at[i]
		vh.Assert(ds[i].Tick >= 1, "a step takes at least a second")
		vh.Assert(vh.Near(ds[i].Tick, vh.IfF(dt < 1, 1, dt), 0.25), "a step takes the time since the previous one, at least a second")
		vh.Assert(vh.Near(ds[i].Duration, 1+sum, 1e-6), "the time of the steps adds up")
		vh.Assert(vh.And(stamp[i] <= now[i], stamp[i] >= now[i]-1), "a packet has the time of its step")
	}
}

// Every part of a packet that is divided among workers has the time of its step.
//
//vh:harness prop=C25 mode=ideal
func DividedTimestamps() {
	vh.LateTicks(time.Hour)
	vh.Ticks(3)
	gen := gpsgen.New(&gpsgen.Options{Interval: 2100 * time.Millisecond, NumWorkers: 4})
	const n = 270
	for i := 0; i < n; i++ {
		gen.Attach(idle(idx("device-", i), 0))
	}
	c := &collector{seen: map[string]int{}, devs: map[string][]*proto.Device{}}
	late := 0
	var mu sync.Mutex
	gen.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		now := time.Now().Unix()
		mu.Lock()
		if err != nil || p.Timestamp > now || p.Timestamp < now-1 {
			late++
		}
		mu.Unlock()
		if c.packet(b) >= 3*n {
			gen.Close()
		}
	})
	vh.Assert(vh.NoDeadlock(gen.Run) == "", "the generator runs until it is closed")
	mu.Lock()
	defer mu.Unlock()
	vh.Assert(late == 0, "every part of a packet has the time of its step")
	vh.Cover("delivered")
}

// A device whose state cannot be encoded: the error is reported and no broken packet is
// delivered.
//
//vh:harness prop=C25 mode=ideal
func EncodingErrors() {
	vh.Ticks(2)
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: 1 + vh.Choose("workers", 2)})
	d := idle("device-0", 0)
	bad := vh.Choose("broken", 2) == 1
	if bad {
		d.SetDescription("\xff\xfe")
	}
	gen.Attach(d)
	report := vh.Choose("report", 2) == 1
	var mu sync.Mutex
	errs := 0
	if report {
		gen.OnError(func(err error) {
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs++
			}
			if errs == 2 {
				gen.Close()
			}
		})
	}
	good, broken := 0, 0
	gen.OnPacket(func(b []byte) {
		mu.Lock()
		defer mu.Unlock()
		p := new(proto.Packet)
		if gproto.Unmarshal(b, p) != nil || len(p.Devices) != 1 || p.Devices[0].Id != "device-0" {
			broken++
		} else {
			good++
		}
		if good+broken == 2 {
			gen.Close()
		}
	})
	msg := vh.NoDeadlock(func() {
		if bad && !report {
			go func() { vh.Settle(); gen.Close() }()
		}
		gen.Run()
	})
	mu.Lock()
	defer mu.Unlock()
	vh.Assert(broken == 0, "a packet that could not be encoded is not delivered")
	vh.Assert(!bad || good == 0, "a packet that could not be encoded is not delivered")
	vh.Assert(!(bad && report) || errs >= 2, "encoding errors are reported")
	vh.Assert(bad || errs == 0, "only errors are reported")
	vh.Assert(bad || good >= 2, "other packets are delivered")
	vh.Assert(msg == "", "the generator goes on after an error")
}

// Closing a generator at any point of its work, under every schedule with up to two
// preemptions (before channel operations and the cancellation).
//
//vh:harness prop=C26 mode=ideal time=60s
func CloseAnytime() {
	n := 1
	if vh.Thorough() {
		n = 2
	}
	closeAnytime(1, vh.Choose("devices", 2), n, n+1)
}

// Two workers, one preemption.
//
//vh:harness prop=C26 mode=ideal time=60s
func CloseAnytimeWorkers() {
	n := 1
	if vh.Thorough() {
		n = 2
	}
	closeAnytime(2, vh.Choose("devices", 2), n, 1)
}

// A step that fills more than one packet and one that is shared among the workers, with one
// (thorough: two) departures from a fixed schedule.
//
//vh:harness prop=C26 mode=ideal time=60s
func CloseAnytimeLarge() {
	vh.Delays(1)
	n := []int{515, 1025}[vh.Choose("devices", 2)]
	if vh.Thorough() {
		vh.Delays(2)
	}
	closeAnytime(2, n, 1, 10)
}

// A generator that is closed before it runs.
//
//vh:harness prop=C26 mode=ideal
func CloseBeforeRun() {
	vh.Schedule(1)
	vh.SchedulePoints("send recv select cancel")
	vh.Ticks(vh.Choose("ticks", 2))
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: 1 + vh.Choose("workers", 2)})
	for i := 0; i < vh.Choose("devices", 2); i++ {
		gen.Attach(idle(idx("device-", i), 0))
	}
	gen.Close()
	gen.Close()
	vh.Mark()
	vh.Assert(vh.NoDeadlock(gen.Run) == "", "a closed generator does not run")
	vh.Settle()
	vh.Assert(vh.Live() == 0, "nothing keeps running after the generator stopped")
}

// Closing and changing a generator from its own callbacks, with up to two (two workers: one;
// thorough: two more) departures from a fixed schedule.
//
//vh:harness prop=C26 mode=ideal time=60s
func CloseFromCallback() {
	workers := 1 + vh.Choose("workers", 2)
	vh.Schedule(10)
	vh.Delays(3 - workers)
	if vh.Thorough() {
		vh.Delays(5 - workers)
	}
	vh.SchedulePoints("send recv select cancel")
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: workers})
	vh.Ticks(2)
	d := idle("device-1", 0)
	gen.Attach(d)
	how := vh.Choose("callback", 5)
	calls := 0
	var mu sync.Mutex
	packet := func(b []byte) {
		mu.Lock()
		defer mu.Unlock()
		calls++
		switch how {
		case 0:
			gen.Close()
		case 1:
			gen.Detach("device-1")
			gen.Attach(idle(idx("device-", 1+calls), 0))
			if calls == 2 {
				gen.Close()
			}
		case 3:
			gen.OnNext(func() { gen.Close() })
		}
	}
	gen.OnPacket(packet)
	nexts := 0
	if how == 2 || how == 4 {
		gen.OnNext(func() {
			nexts++
			if how == 4 {
				vh.Settle() // steps go on meanwhile
			}
			gen.Lookup("device-1")
			gen.OnPacket(nil)
			gen.Close()
		})
	}
	vh.Mark()
	msg := vh.NoDeadlock(func() {
		if vh.Symbolic() {
			// ticks are bounded
			go func() { vh.Settle(); gen.Close() }()
		}
		gen.Run()
	})
	vh.Assert(msg == "", "the generator stops when a callback closes it")
	vh.Assert(nexts <= 1, "a callback that closed the generator is not called again")
	vh.Settle()
	vh.Assert(vh.Live() == 0, "nothing keeps running after the generator stopped")
	vh.Cover("closed by a callback")
}

func closeAnytime(workers, devices, ticks, preempt int) {
	vh.Schedule(preempt)
	vh.SchedulePoints("send recv select cancel")
	vh.Ticks(ticks)
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: workers, PacketSize: 1024})
	for i := 0; i < devices; i++ {
		gen.Attach(idle(idx("device-", i), 0))
	}
	vh.Mark()
	msg := vh.NoDeadlock(func() {
		go func() {
			vh.Pause()
			gen.Close()
		}()
		gen.Run()
	})
	vh.Assert(msg == "", "the generator stops when it is closed")
	vh.Settle()
	vh.Assert(vh.Live() == 0, "nothing keeps running after the generator stopped")
	vh.Cover("stopped")
}

// Packets that are delivered while a generator is closed hold attached devices only, with up
// to four (thorough: five) departures from a fixed schedule.
//
//vh:harness prop=C25 mode=ideal time=60s
func ClosePacketsWhole() {
	vh.Schedule(10)
	vh.Delays(4)
	workers := 1 + vh.Choose("workers", 2)
	if vh.Thorough() {
		vh.Delays(4)
	}
	vh.SchedulePoints("send recv select cancel lock rlock")
	vh.Ticks(1)
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: workers, PacketSize: 1024})
	gen.Attach(idle("device-1", 0))
	gen.Attach(idle("device-2", 0))
	var mu sync.Mutex
	bad, empty := 0, 0
	gen.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			bad++
			return
		}
		for _, d := range p.Devices {
			if d.Id != "device-1" && d.Id != "device-2" {
				empty++
			}
		}
	})
	msg := vh.NoDeadlock(func() {
		go func() {
			vh.Pause()
			gen.Close()
		}()
		gen.Run()
	})
	vh.Assert(msg == "", "the generator stops when it is closed")
	mu.Lock()
	defer mu.Unlock()
	vh.Assert(bad == 0, "a packet that is delivered can be decoded")
	vh.Assert(empty == 0, "a packet that is delivered holds attached devices only")
	vh.Cover("stopped")
}

// A running generator, its callbacks and concurrent use of its registry and its devices:
// no data races in any schedule with one (thorough:
// three) departures from a fixed one.
//
//vh:harness prop=C27 mode=ideal time=60s
func GeneratorRaces() {
	vh.Schedule(10)
	vh.Delays(1)
	workers := 1
	if vh.Thorough() {
		vh.Delays(3)
		workers += vh.Choose("workers", 2)
	}
	vh.SchedulePoints("send recv select cancel lock rlock")
	vh.Ticks(1)
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: workers, PacketSize: 1024})
	d := moving("device-1", 1)
	gen.Attach(d)
	gen.Attach(idle("device-2", 1))
	vh.DetectRaces()
	var mu sync.Mutex
	n := 0
	gen.OnPacket(func([]byte) {
		mu.Lock()
		defer mu.Unlock()
		n++
	})
	uses := []func(){
		func() { gen.OnPacket(func([]byte) {}) },
		func() { gen.OnError(func(error) {}) },
		func() { gen.OnNext(func() {}) },
		func() { gen.Attach(idle("device-3", 1)) },
		func() { gen.Detach("device-1") },
		func() { gen.NumDevices(); gen.HasTracker("device-2"); gen.Lookup("device-1") },
		func() { gen.Each(func(int, *gpsgen.Device) bool { return true }) },
		func() { d.Update() },
		func() { d.SetDescription("other") },
		func() { d.AddSensor(newSensor()) },
		func() { gproto.Marshal(d.State()) },
		func() { gproto.Marshal(d.Snapshot()) },
	}
	use := uses[vh.Choose("use", len(uses))]
	vh.NoDeadlock(func() {
		go func() {
			vh.Pause()
			use()
			vh.Pause()
			gen.Close()
		}()
		gen.Run()
	})
	vh.Cover("ran")
}

// A step that is shared among the workers.
//
//vh:harness prop=C27 mode=ideal time=60s
func PacketRaces() {
	vh.Schedule(10)
	vh.Delays(1)
	vh.SchedulePoints("send recv select cancel")
	vh.Ticks(1)
	if vh.Thorough() {
		vh.Ticks(2)
	}
	gen := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, NumWorkers: 2, PacketSize: 1024})
	for i := 0; i < 515; i++ {
		gen.Attach(idle(idx("device-", i), 0))
	}
	vh.DetectRaces()
	var mu sync.Mutex
	n := 0
	gen.OnPacket(func(b []byte) {
		mu.Lock()
		defer mu.Unlock()
		p := new(proto.Packet)
		gproto.Unmarshal(b, p)
		n += len(p.Devices)
	})
	vh.NoDeadlock(func() {
		go func() {
			vh.Pause()
			vh.Settle()
			gen.Close()
		}()
		gen.Run()
	})
	vh.Cover("ran")
}
